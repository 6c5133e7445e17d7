"""Recording driver of the demo application: drv_demo.py PROP SEED SHARD NSHARDS TIER OUT [PLAN]"""
import io
import json
import math
import os
import pickle
import random
import re
import resource
import signal
import sys
import time
import timeit
import traceback
import types
from fractions import Fraction

DEMO = os.environ.get("VERIF_REPO", "/repo") + "/Python/research/scripts/demo"
sys.path.insert(0, DEMO)


class Clock:
    """the time agents take is part of the environment: while it is on, it passes only where a callback says so"""
    on, now = False, 10000.0


def clocked(real, unit=1):
    return lambda: type(unit)(Clock.now * unit) if Clock.on else real()


for _n in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
    setattr(time, _n, clocked(getattr(time, _n), 1.0))
    setattr(time, _n + "_ns", clocked(getattr(time, _n + "_ns"), 10 ** 9))
timeit.default_timer = time.perf_counter
KEYS = types.ModuleType("graphicsUtils")        # the keyboard is part of the environment
KEYS.waiting, KEYS.pressed = [], []
KEYS.keys_waiting = lambda: list(KEYS.waiting)
KEYS.keys_pressed = lambda: list(KEYS.pressed)
sys.modules.setdefault("graphicsUtils", KEYS)       # drv_screen.py uses the real one, over a stand-in for tkinter
import game  # noqa: E402
import ghostAgents  # noqa: E402
import keyboardAgents  # noqa: E402
import layout  # noqa: E402
import pacman  # noqa: E402
import util  # noqa: E402

DIRS = ["North", "South", "East", "West", "Stop"]
VEC = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}
REAL_OUT, REAL_ERR = sys.stdout, sys.stderr


class Hang(BaseException):
    pass


HANGS = 0


def on_cpu(*a):
    global HANGS
    HANGS += 1
    raise Hang()


resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


signal.signal(signal.SIGVTALRM, on_cpu)        # SIGALRM belongs to the code under test


def num(x):
    try:
        if isinstance(x, bool) or x != x:
            return -2000000000
        if float(x).is_integer() and abs(x) < 2 ** 31 - 10:
            return int(x)
    except Exception:
        pass
    return -2000000000


def half(x):
    try:
        return num(2 * x)
    except Exception:
        return -2000000000


def frac(x, limit=20000):
    """a number as the simple rational it stands for"""
    try:
        f = Fraction(x)
        s = f.limit_denominator(limit)
        if abs(float(s) - float(x)) > 1e-9 * max(1, abs(float(x))) or abs(s.numerator) > 40000:
            return [-2000000, 1]
        return [s.numerator, s.denominator]
    except Exception:
        return [-2000000, 1]


class Case:
    def __init__(self, cid):
        self.id, self.ev, self.meta = cid, [], {}
        self.obj, self.n = {}, 0

    def dump(self):
        return dict(id=self.id, ev=self.ev, meta=self.meta)

    def new(self, kind, o):
        self.n += 1
        r = "%s%d" % (kind, self.n)
        self.obj[r] = o
        return r

    def call(self, f, limit=20):
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            return True, f()
        except Hang:
            return False, "hang"
        except (Exception, SystemExit) as x:
            return False, x
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def emit(self, op, ok=True, **kw):
        self.ev.append(dict(op=op, ok=ok, **kw))

    # ------------------------------------------------------------------ game states
    @staticmethod
    def obs(st):
        ag = []
        for i in range(st.getNumAgents()):
            a = st.getPacmanState() if i == 0 else st.getGhostState(i)
            x, y = a.getPosition()
            ag.append(dict(x=half(x), y=half(y), d=a.getDirection(), t=num(a.scaredTimer), p=bool(a.isPacman)))
        return dict(food=[[num(x), num(y)] for x, y in st.getFood().asList()], nfood=num(st.getNumFood()),
                    caps=[[num(x), num(y)] for x, y in st.getCapsules()], score=num(st.getScore()),
                    win=bool(st.isWin()), lose=bool(st.isLose()), ag=ag)

    EMPTY = dict(food=[], nfood=0, caps=[], score=0, win=False, lose=False, ag=[])

    def board(self, rows, lay=None):
        def f():
            b = lay or layout.Layout(list(rows))
            o = dict(w=num(b.width), h=num(b.height), walls=[list(c) for c in b.walls.asList()],
                     food=[list(c) for c in b.food.asList()], total=num(b.totalFood), caps=[list(c) for c in b.capsules],
                     ag=[[bool(p), num(c[0]), num(c[1])] for p, c in b.agentPositions], ghosts=num(b.getNumGhosts()),
                     iswall=[[[x, y], bool(b.isWall((x, y)))] for x in range(b.width) for y in range(b.height)],
                     text=str(b).split("\n"))
            return b, o
        ok, x = self.call(f)
        r = self.new("b", x[0] if ok else None)
        self.emit("board", ok, r=r, rows=list(rows), res=x[1] if ok else {}, err="" if ok else repr(x)[:200])
        return r

    def start(self, b, n=1000):
        def f():
            st = pacman.GameState()
            st.initialize(self.obj[b], n)
            return st, self.obs(st)
        ok, x = self.call(f)
        r = self.new("s", x[0] if ok else None)
        self.emit("start", ok, r=r, b=b, n=n, res=x[1] if ok else self.EMPTY)
        return r if ok else None

    def put(self, r, o):
        """overwrites a register (keeps the number of live registers small)"""
        self.obj[r] = o
        return r

    def succ(self, s, i, a, r=None, via=None):
        o = self.obj[s]

        def f():
            if i == 0 and via == "pacman":
                t = o.generatePacmanSuccessor(a)
            else:
                t = o.generateSuccessor(i, a)
            return t, self.obs(t)
        ok, x = self.call(f)
        if ok:
            r = self.put(r, x[0]) if r else self.new("s", x[0])
        self.emit("succ", ok, r=r if ok else "-", s=s, i=i + 1, a=a, res=x[1] if ok else self.EMPTY)
        return r if ok else None

    def succn(self, s, h, r=None, via="moves"):
        def f():
            t = self.obj[s]
            for i, a in h:
                t = t.generateSuccessor(i - 1, a)
            return t, self.obs(t)
        ok, x = self.call(f)
        if ok:
            r = self.put(r, x[0]) if r else self.new("s", x[0])
        self.emit("succn", ok, r=r if ok else "-", s=s, h=[[num(i), a] for i, a in h], res=x[1] if ok else self.EMPTY,
                  err="" if ok else repr(x)[:200])
        return r if ok else None

    def legal(self, s, i, via=None):
        o = self.obj[s]
        ok, x = self.call(lambda: list(o.getLegalPacmanActions() if via and i == 0 else o.getLegalActions(i)))
        self.emit("legal", ok, s=s, i=i + 1, res=x if ok else [])
        return x if ok else []

    def look(self, s):
        ok, x = self.call(lambda: self.obs(self.obj[s]))
        self.emit("look", ok, s=s, res=x if ok else self.EMPTY)

    def cells(self, s):
        o = self.obj[s]

        def f():
            w = o.getWalls()
            cs = [(x, y) for x in range(w.width) for y in range(w.height)]
            px, py = o.getPacmanPosition()
            return dict(food=[list(c) for c in cs if o.hasFood(*c)], walls=[list(c) for c in cs if o.hasWall(*c)],
                        n=num(o.getNumAgents()), pac=[half(px), half(py)],
                        gh=[[half(x), half(y)] for x, y in o.getGhostPositions()])
        ok, x = self.call(f)
        self.emit("cells", ok, s=s, **(x if ok else dict(food=[], walls=[], n=0, pac=[], gh=[])))

    def ghost_at(self, s):
        """one agent asked for by its number"""
        o = self.obj[s]
        for i in range(o.getNumAgents() + 2):
            def f():
                a = o.getGhostState(i)
                x, y = a.getPosition()
                return dict(x=half(x), y=half(y), d=a.getDirection(), t=num(a.scaredTimer))
            ok, x = self.call(f)
            ok2, p = self.call(lambda: [half(v) for v in o.getGhostPosition(i)])
            self.emit("ghost_at", ok, s=s, i=i + 1, res=x if ok else dict(x=0, y=0, d="", t=0), pos=p if ok2 else [], placed=ok2)

    def forget(self):
        ok, x = self.call(lambda: pacman.GameState.getAndResetExplored())
        self.emit("forget", ok)

    def explored(self):
        ok, x = self.call(lambda: [self.obs(t) for t in pacman.GameState.getAndResetExplored()])
        self.emit("explored", ok, res=x if ok else [])

    def board_text(self, s):
        def f():
            t = str(self.obj[s])
            head, tail = t.rsplit("Score:", 1)
            return head.split("\n")[:-1], int(tail)
        ok, x = self.call(f)
        self.emit("board_text", ok, s=s, rows=x[0] if ok else [], score=x[1] if ok else 0)

    def deepcopy(self, s):
        ok, x = self.call(lambda: (lambda t: (t, self.obs(t)))(self.obj[s].deepCopy()))
        r = self.new("s", x[0]) if ok else None
        self.emit("deepcopy", ok, s=s, r=r or "-", res=x[1] if ok else self.EMPTY)
        return r

    def pose(self, s, rng):
        """a copy in which the agents stand somewhere else and are scared for another time"""
        o = self.obj[s]

        def f():
            t = o.deepCopy()
            want = self.obs(t)
            w = t.getWalls()
            free = [(x, y) for x in range(w.width) for y in range(w.height) if not w[x][y]]
            spots = []          # (x, y, direction), half-way ones included
            for x, y in free:
                for d, (dx, dy) in VEC.items():
                    if d == "Stop":
                        continue
                    if 0 <= x - dx < w.width and 0 <= y - dy < w.height and not w[x - dx][y - dy]:
                        spots += [(x, y, d), (x, y, d), (x - dx / 2, y - dy / 2, d)]
            spots = spots or [(x, y, "Stop") for x, y in free]
            for i in range(t.getNumAgents()):
                a = t.data.agentStates[i]
                if i == 0:
                    x, y, d = rng.choice([q for q in spots if q[0] == int(q[0]) and q[1] == int(q[1])])
                    if rng.random() < .5:
                        continue
                else:
                    p = t.getPacmanPosition()
                    timer = rng.choice([0, 1, 1, 2, 2, 3, 5, 20, 39, 40])
                    q = [q for q in spots if abs(q[0] - p[0]) + abs(q[1] - p[1]) >= 1 and (timer or q[0] == int(q[0]) and q[1] == int(q[1]))]
                    near = [z for z in q if abs(z[0] - p[0]) + abs(z[1] - p[1]) <= 2]
                    if not q:
                        q = [a.getPosition() + (a.getDirection(),)]
                        timer = a.scaredTimer
                    x, y, d = rng.choice(near if near and rng.random() < .7 else q)
                    a.scaredTimer = timer
                    want["ag"][i]["t"] = timer
                a.configuration = game.Configuration((float(x), float(y)) if i else (int(x), int(y)), d)
                want["ag"][i].update(x=half(x), y=half(y), d=d)
            p = t.getPacmanPosition()          # nobody touches anybody yet
            if any(abs(x - p[0]) + abs(y - p[1]) < 1 for x, y in t.getGhostPositions()):
                return None
            return t, want, self.obs(t)
        ok, x = self.call(f)
        if ok and x is None:
            return None
        r = self.new("s", x[0]) if ok else None
        self.emit("pose", ok, s=s, r=r or "-", want=x[1] if ok else self.EMPTY, res=x[2] if ok else self.EMPTY)
        return r

    def again(self, s, t):
        """two ways to the same state"""
        ok, x = self.call(lambda: self.obs(self.obj[t]))
        self.emit("again", ok, s=s, t=t, res=x if ok else self.EMPTY)

    def state_eq(self, s, t):
        a, b = self.obj[s], self.obj[t]
        ok, x = self.call(lambda: (bool(a == b), hash(a) == hash(b)))
        self.emit("state_eq", ok, s=s, t=t, res=x[0] if ok else False, h=x[1] if ok else False)

    def edit(self, s, rng):
        """changes a deep copy by hand"""
        o = self.obj[s]

        def f():
            t = o.deepCopy()
            want = self.obs(t)
            k = rng.choice(["food", "caps", "timer", "pos", "walls"])
            if k == "food":
                x, y = rng.randrange(t.getFood().width), rng.randrange(t.getFood().height)
                t.getFood()[x][y] = not t.getFood()[x][y]
                want["food"] = [list(c) for c in t.getFood().asList()]
                want["nfood"] = len(want["food"])
            elif k == "caps":
                t.getCapsules().append((0, 0))
                want["caps"] = want["caps"] + [[0, 0]]
            elif k == "timer" and t.getNumAgents() > 1:
                i = rng.randrange(1, t.getNumAgents())
                t.getGhostState(i).scaredTimer = 17
                want["ag"][i]["t"] = 17
            elif k == "pos" and t.getNumAgents() > 1:
                i = rng.randrange(1, t.getNumAgents())
                t.getGhostState(i).configuration = game.Configuration((0, 0), "East")
                want["ag"][i].update(x=0, y=0, d="East")
            else:
                t.getWalls()[0][0] = not t.getWalls()[0][0]
            return self.obs(o), want, self.obs(t), [list(c) for c in o.getWalls().asList()]
        ok, x = self.call(f)
        e = self.EMPTY
        self.emit("edit", ok, s=s, res=x[0] if ok else e, want=x[1] if ok else e, got=x[2] if ok else e, walls=x[3] if ok else [])


# ============================================================================= boards
def rand_rows(rng, w=None, h=None, ghosts=None, dens=None, food=None, caps=None):
    w, h = w or rng.randint(4, 9), h or rng.randint(3, 8)
    g = [[" "] * w for _ in range(h)]
    for y in range(h):
        for x in range(w):
            if x in (0, w - 1) or y in (0, h - 1):
                g[y][x] = "%"
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    dens = rng.choice([0, .15, .3, .45, .65]) if dens is None else dens
    for x, y in inner:
        if rng.random() < dens:
            g[y][x] = "%"
    free = [(x, y) for x, y in inner if g[y][x] == " "]
    while len(free) < 2:
        x, y = rng.choice(inner)
        g[y][x] = " "
        free = [(x, y) for x, y in inner if g[y][x] == " "]
        if len(inner) < 2:
            break
    rng.shuffle(free)
    x, y = free.pop()
    g[y][x] = "P"
    ghosts = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7]) if ghosts is None else ghosts
    style = rng.random()
    marks = ["G"] * ghosts if style < .4 else [str(1 + i % 4) for i in range(ghosts)] if style < .8 else [rng.choice("G1234") for _ in range(ghosts)]
    for m in marks:
        if free:
            x, y = free.pop()
            g[y][x] = m
    food = rng.choice([.05, .2, .6]) if food is None else food
    caps = rng.choice([0, .1, .3]) if caps is None else caps
    for x, y in free:
        k = rng.random()
        g[y][x] = "o" if k < caps else "." if k < caps + food else " "
    return ["".join(r) for r in g]


def toward(rng, st, i, legal, sign=1):
    a = st.getPacmanState() if i == 0 else st.getGhostState(i)
    x, y = a.getPosition()
    if i == 0:
        goals = [c for c in st.getCapsules()] + st.getFood().asList()
        goals = goals[:6] or [(1, 1)]
        if rng.random() < .3 and st.getNumAgents() > 1:
            goals = [tuple(st.getGhostPosition(rng.randrange(1, st.getNumAgents())))]
        gx, gy = rng.choice(goals)
    else:
        gx, gy = st.getPacmanPosition()
    return min(legal, key=lambda d: (sign * (abs(x + VEC[d][0] - gx) + abs(y + VEC[d][1] - gy)), rng.random()))


def runout(cx, case, ask=None):
    """ghosts whose scared time is about to end, anywhere between two cells, close to Pacman"""
    rng = cx.rng
    n = rng.choice([1, 2, 3, 1, 2, 3, 6])
    rows = rand_rows(rng, w=rng.randint(5, 8), h=rng.randint(3, 5), dens=rng.choice([0, .1]), ghosts=n, food=.2, caps=.4)
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s0 = case.start(b)
    if not s0:
        return
    n = case.obj[s0].getNumAgents()
    st, h = case.obj[s0], []

    def far(t, i, lim=.8):
        p = t.getPacmanPosition()
        return all(abs(p[0] - g[0]) + abs(p[1] - g[1]) > lim for g in ([t.getGhostPosition(i)] if i else t.getGhostPositions()))

    def go(i, score, lim=.8):
        nonlocal st
        best = []
        for a in st.getLegalActions(i):
            t = st.generateSuccessor(i, a)
            if not t.isLose() and not t.isWin() and far(t, i, lim):
                best.append((score(t), rng.random(), a, t))
        if not best:
            return False
        _, _, a, st = min(best, key=lambda x: x[:2])
        h.append([i + 1, a])
        return True

    def dist(t, c):
        p = t.getPacmanPosition()
        return abs(p[0] - c[0]) + abs(p[1] - c[1])

    def eat():
        caps = st.getCapsules()
        if not caps:
            return
        c = min(caps, key=lambda c: dist(st, c))
        for _ in range(12):
            if len(st.getCapsules()) < len(caps) or not go(0, lambda t: dist(t, c) if c in t.getCapsules() else -1):
                return

    try:
        eat()
        for i in range(1, n):
            for _ in range(rng.choice([0, 1, 1, 3, 2])):
                go(i, lambda t: 0)
        if rng.random() < .8:
            eat()
        for i in range(1, n):
            left = rng.choice([0, 1, 1, 2, 2, 3, 4])
            near = rng.random() < .7
            while st.getGhostState(i).scaredTimer > left:
                close = near and st.getGhostState(i).scaredTimer < left + 8
                if not go(i, lambda t: (1 if close else -.3) * dist(t, t.getGhostPosition(i)) + 2 * rng.random(), .8 if close else 1.6):
                    break
    except Exception:      # a move the rules allow fails: the histories below tell
        pass
    s = case.succn(s0, h) if h else s0
    if not s:
        return
    if ask:
        ask(cx, case, s)
    for i in range(n):
        for a in case.legal(s, i):
            t = case.succ(s, i, a)
            if t and rng.random() < .3:
                j = rng.randrange(n)
                q = case.legal(t, j)
                if q:
                    case.succ(t, j, toward(rng, case.obj[t], j, q))
    for _ in range(10):
        i = rng.randrange(n)
        q = case.legal(s, i)
        if not q:
            break
        s = case.succ(s, i, toward(rng, case.obj[s], i, q) if rng.random() < .8 else rng.choice(q)) or s
        if ask:
            if case.obj[s].isWin() or case.obj[s].isLose():
                break
            ask(cx, case, s)


def poses(cx, case, ask=None):
    """every move out of states that are set up by hand"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(4, 8), h=rng.randint(3, 6), dens=rng.choice([0, .15, .3]), ghosts=rng.randint(1, rng.choice([2, 4, 8])), food=rng.choice([.1, .3]), caps=rng.choice([.1, .3]))
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s0 = case.start(b)
    if not s0:
        return
    n = case.obj[s0].getNumAgents()
    for _ in range(3):
        s = case.pose(s0, rng)
        if not s:
            continue
        if ask:
            ask(cx, case, s)
        for i in range(n):
            for a in case.legal(s, i):
                t = case.succ(s, i, a, r="p1")
                if t and rng.random() < .4:
                    j = rng.randrange(n)
                    q = case.legal(t, j)
                    if q:
                        case.succ(t, j, toward(rng, case.obj[t], j, q), r="p2")


def play(cx, case, rows, steps, probe=.1, ring=6, calm=None):
    """a history of moves; earlier states are returned to now and then"""
    rng = cx.rng
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s = case.start(b, rng.choice([1000, 1000, 1, 2]))
    if not s:
        return
    n = case.obj[s].getNumAgents()
    regs = [s]
    cur = s
    turn = 0
    calm = rng.random() < .4 if calm is None else calm
    for k in range(steps):
        o = case.obj[cur]
        i = turn % n if rng.random() < .8 else rng.randrange(n)
        turn += 1
        legal = case.legal(cur, i, via=rng.random() < .3)
        if rng.random() < probe:
            a = rng.choice(DIRS + ["Jump"])
            case.succ(cur, i, a)
            case.look(cur)
            case.cells(cur)
            case.board_text(cur)
        if not legal:
            if o.isWin() or o.isLose():
                for j in range(n):
                    case.legal(cur, j)
                case.succ(cur, rng.randrange(n), rng.choice(DIRS))
            if len(regs) < 2:
                return
            cur = rng.choice(regs)      # go back in time
            continue
        legal = [a for a in legal if a in VEC]
        if not legal:
            return
        p = rng.random()
        scared = i > 0 and o.getGhostState(i).scaredTimer > 0
        if calm:      # nobody dies soon: timers run out
            a = toward(rng, o, i, legal, -1) if i > 0 and p < .8 else rng.choice(legal)
        else:
            a = toward(rng, o, i, legal, -1 if scared and rng.random() < .7 else 1) if p < .6 else rng.choice(legal)
        if len(regs) < ring:
            r = case.succ(cur, i, a, via="pacman" if rng.random() < .2 else None)
            if r:
                regs.append(r)
        else:
            old = rng.choice([x for x in regs if x != cur])
            case.look(old)
            r = case.succ(cur, i, a, r=old)
        if not r:
            return
        if rng.random() < .03:
            case.look(cur)
            cur = rng.choice(regs)
        else:
            cur = r
        if k % 50 == 0 and hasattr(pacman.GameState, "getAndResetExplored"):
            pacman.GameState.getAndResetExplored()
    for r in regs:
        case.look(r)


def plan_state(cx, case, pl):
    """a reachable state of the specification (after some waiting): every action of every agent"""
    b = case.board(pl["b"])
    s = case.start(b)
    if not s:
        return
    wait = [[1, "Stop"]] * cx.rng.choice([0, 0, 0, 2, 15, 60])
    if wait or pl["h"]:
        s = case.succn(s, wait + pl["h"])
        if not s:
            return
    n = case.obj[s].getNumAgents()
    for i in range(n):
        case.legal(s, i)
        for a in DIRS:
            case.succ(s, i, a)
    case.look(s)
    case.cells(s)
    case.ghost_at(s)
    case.board_text(s)


def endgame(cx, case):
    """little food, many ghosts that gather at it, a patient Pacman"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(5, 8), h=rng.randint(4, 6), ghosts=rng.randint(2, 7), dens=rng.choice([0, .15]), food=0, caps=rng.choice([0, .1]))
    free = [(x, y) for y, r in enumerate(rows) for x, ch in enumerate(r) if ch in " o"]
    if not free:
        return
    for x, y in rng.sample(free, min(len(free), rng.randint(1, 2))):
        rows[y] = rows[y][:x] + "." + rows[y][x + 1:]
    b = case.board(rows)
    s = case.start(b)
    if not s:
        return
    n = case.obj[s].getNumAgents()
    regs = ["e1", "e2"]
    patience = rng.choice([2, 8, 14, 20, 30])
    kept = []
    for k in range(60):
        i = k % n if k < patience * n else 0 if rng.random() < .6 else rng.randrange(n)
        o = case.obj[s]
        if o.isWin() or o.isLose():
            if not kept:
                return
            s = kept.pop()        # another ending
            continue
        q = [a for a in case.legal(s, i) if a in VEC]
        if not q:
            continue
        foods = o.getFood().asList()
        x, y = (o.getPacmanState() if i == 0 else o.getGhostState(i)).getPosition()
        px, py = o.getPacmanPosition()

        def cost(a, goals):
            nx, ny = x + VEC[a][0], y + VEC[a][1]
            return min(abs(nx - gx) + abs(ny - gy) for gx, gy in goals) if goals else 0
        if i == 0 and k < patience * n:
            ok = [a for a in q if all(abs(x + VEC[a][0] - gx) + abs(y + VEC[a][1] - gy) > 1 for gx, gy in o.getGhostPositions())
                  and (int(x + VEC[a][0]), int(y + VEC[a][1])) not in foods]
            a = "Stop" if "Stop" in ok and rng.random() < .7 else rng.choice(ok or q)
        elif i == 0:
            a = min(q, key=lambda a: (cost(a, foods), rng.random())) if rng.random() < .8 else rng.choice(q)
        else:
            ok = [a for a in q if abs(x + VEC[a][0] - px) + abs(y + VEC[a][1] - py) >= 1] or q
            a = min(ok, key=lambda a: (cost(a, foods), rng.random())) if rng.random() < .8 else rng.choice(ok)
        if i == 0 and rng.random() < .3 and len(kept) < 3:
            kept.append(s)
            r = None
        else:
            r = next((r for r in regs if r != s and r not in kept), None)
        s = case.succ(s, i, a, r=r)
        if not s:
            return


def some(cx, plans, quick, thorough):
    mine = [x for i, x in enumerate(plans) if i % cx.nshards == cx.shard]
    n = cx.n(quick, thorough)
    return cx.rng.sample(mine, n) if len(mine) > n else mine


def rare(plans, rng, n):
    """the behaviours in which something is about to happen: weighted to long ones"""
    return sorted(plans, key=lambda p: -len(p["h"]))[:n]


D = {}


def driver(*props):
    def f(g):
        for p in props:
            D[p] = g
        return g
    return f


def rim(cx, case):
    """the cells around a cell, on boards without a rim of walls too"""
    rng = cx.rng
    w, h = rng.randint(1, 6), rng.randint(1, 5)
    cells = [rng.choice("%%.. oG") for _ in range(w * h)]
    cells[rng.randrange(w * h)] = "P"
    b = case.board(["".join(cells[y * w:(y + 1) * w]) for y in range(h)])
    lay = case.obj[b]
    if lay is None:
        return
    for x in range(w):
        for y in range(h):
            neighbours(case, b, (x, y))


@driver("C24")
def c24(cx):
    for pl in some(cx, cx.plans.get("MC_Pacman", []), 90, 2000):
        yield cx.run("plan", plan_state, pl)
    for _ in range(cx.n(14, 150)):
        yield cx.run("play", play, rand_rows(cx.rng), 60, .15)
    for _ in range(cx.n(12, 150)):
        yield cx.run("poses", poses)
    for _ in range(cx.n(8, 100)):
        yield cx.run("rim", rim)


@driver("C25")
def c25(cx):
    for pl in some(cx, cx.plans.get("MC_Pacman", []), 90, 2000):
        yield cx.run("plan", plan_state, pl)
    for _ in range(cx.n(16, 180)):
        yield cx.run("play", play, rand_rows(cx.rng, ghosts=cx.rng.randint(1, 4), food=cx.rng.choice([.1, .3]), caps=cx.rng.choice([.1, .3]),
                                             w=cx.rng.randint(4, 7), h=cx.rng.randint(3, 6)), 60, .03, calm=False)
    for _ in range(cx.n(16, 200)):
        yield cx.run("endgame", endgame)
    for _ in range(cx.n(12, 150)):
        yield cx.run("runout", runout)
    for _ in range(cx.n(16, 200)):
        yield cx.run("poses", poses)
    for _ in range(cx.n(2, 20)):
        yield cx.run("game", real_game)


@driver("C26")
def c26(cx):
    ps = cx.plans.get("MC_Pacman", [])
    for pl in some(cx, ps, 60, 2000):
        yield cx.run("plan", plan_state, pl)
    for pl in some(cx, [p for p in ps if len(p["h"]) > 40], 40, 1000):
        yield cx.run("long", plan_state, pl)
    for _ in range(cx.n(10, 120)):
        yield cx.run("play", play, rand_rows(cx.rng, w=cx.rng.randint(6, 10), h=cx.rng.randint(5, 9), ghosts=cx.rng.randint(1, 3), dens=.2,
                                             food=.1, caps=.3), 160, .02, calm=True)
    for _ in range(cx.n(20, 250)):
        yield cx.run("runout", runout)
    for _ in range(cx.n(16, 200)):
        yield cx.run("poses", poses)
    for _ in range(cx.n(4, 40)):
        yield cx.run("brawl", play, rand_rows(cx.rng, w=cx.rng.randint(5, 7), h=cx.rng.randint(4, 6), ghosts=cx.rng.randint(2, 8), food=.1, caps=.4), 80, .02, calm=False)


# ============================================================================= C27
def fewer(cx, case, b, rows):
    """the start of the same board, with fewer ghosts or with something else there"""
    k = cx.rng.random()
    if k < .4:
        return case.start(b, cx.rng.choice([0, 1, 2]))
    rows = list(rows)
    there = [(y, x) for y, r in enumerate(rows) for x, c in enumerate(r) if c in ("Go." if k < .8 else " .oG%")
             and 0 < y < len(rows) - 1 and 0 < x < len(r) - 1]
    if not there:
        return None
    y, x = cx.rng.choice(there)
    rows[y] = rows[y][:x] + cx.rng.choice(" .oG") + rows[y][x + 1:]
    return case.start(case.board(rows))


def indep(cx, case, rows, steps):
    rng = cx.rng
    b = case.board(rows)
    s = case.start(b)
    if not s:
        return
    n = case.obj[s].getNumAgents()
    regs = [s]
    case.forget()
    for k in range(steps):
        if rng.random() < .08:
            case.explored()
        cur = rng.choice(regs[-3:])
        i = k % n
        legal = case.legal(cur, i)
        if legal:
            a = toward(rng, case.obj[cur], i, legal) if rng.random() < .6 else rng.choice(legal)
            r = case.succ(cur, i, a)
            q = case.succ(cur, i, a)
            case.look(cur)
            if r and q:
                case.again(r, q)
                case.state_eq(r, q)
                regs.append(r)
        else:
            d = case.deepcopy(cur)
            if d:
                case.legal(d, 0)
                case.legal(d, n - 1)
            case.succ(d or cur, 0, "Stop")
        if rng.random() < .3:
            d = case.deepcopy(cur)
            if d:
                case.state_eq(cur, d)
                case.state_eq(d, cur)
                if legal:
                    case.succ(d, i, legal[0])
                    case.look(cur)
                    case.look(d)
                if rng.random() < .3:
                    regs.append(d)
        if rng.random() < .3:
            case.edit(cur, rng)
        case.state_eq(rng.choice(regs), rng.choice(regs))
        if k == 2 or k == 9:
            u = fewer(cx, case, b, rows)
            if u:
                case.state_eq(s, u)
                case.state_eq(u, s)
                case.state_eq(cur, u)
        if len(regs) > 8:
            for x in regs[:3]:
                case.look(x)
            regs = regs[3:]
    for x in regs:
        case.look(x)


def two_ways(cx, case):
    """the same moves in two orders"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(4, 7), h=rng.randint(3, 5), ghosts=rng.randint(0, 3), dens=rng.choice([0, .2]),
                     caps=rng.choice([.1, .5, .8]), food=rng.choice([0, .2]))
    b = case.board(rows)
    s = case.start(b)
    if not s:
        return
    n = case.obj[s].getNumAgents()
    for _ in range(6):
        moves = [[0, "Stop"]] * rng.randint(0, 2)
        o = case.obj[s]
        if o.isWin() or o.isLose():
            return
        for _ in range(rng.randint(1, 4)):
            i = rng.choice([0, 0, rng.randrange(n)])
            q = o.getLegalActions(i)
            if q:
                moves.append([i, rng.choice(q)])
        ends = []
        for _ in range(2):
            t = s
            rng.shuffle(moves)
            for i, a in moves:
                t = case.succ(t, i, a) or t
            ends.append(t)
        case.state_eq(ends[0], ends[1])
        s = ends[0]


def plan_indep(cx, case, pl):
    b = case.board(pl["b"])
    s = case.start(b)
    if not s:
        return
    t = case.succn(s, pl["h"]) if pl["h"] else s
    u = case.succn(s, pl["h"]) if pl["h"] else s
    if not t or not u:
        return
    case.again(t, u)
    case.state_eq(t, u)
    d = case.deepcopy(t)
    if d:
        case.state_eq(t, d)
    for i in range(case.obj[t].getNumAgents()):
        for a in case.legal(t, i):
            x = case.succ(t, i, a)
            y = case.succ(d, i, a) if d else None
            if x and y:
                case.again(x, y)
                case.state_eq(x, y)
                case.state_eq(x, t)
            case.look(t)
    case.look(s)
    case.edit(t, cx.rng)
    case.look(t)


@driver("C27")
def c27(cx):
    ps = cx.plans.get("MC_Pacman", [])
    for pl in some(cx, ps, 50, 800):
        yield cx.run("plan", plan_indep, pl)
    for _ in range(cx.n(40, 400)):
        yield cx.run("ways", two_ways)
    for _ in range(cx.n(14, 150)):
        yield cx.run("indep", indep, rand_rows(cx.rng, w=cx.rng.randint(4, 7), h=cx.rng.randint(3, 6), ghosts=cx.rng.randint(1, 3),
                                               caps=.3, food=cx.rng.choice([.1, .3])), 30)


# ============================================================================= C28: the game loop
class Enough(Exception):
    pass


class Loop:
    """one run of the real Game with everything around it scripted"""

    def __init__(self, case, cfg, script, rng, mute=False):
        self.case, self.cfg, self.rng, self.mute = case, cfg, rng, mute
        self.script = list(script) if script is not None else None
        self.pos = 0
        self.calls = 0
        self.moves = 0
        self.moved = []
        self.shown = [0, 0, 0]
        self.said = {i: 0 for i in range(1, cfg["n"] + 1)}
        self.last = None
        self.r = case.new("g", None)

    def outcome(self, kind, i):
        self.calls += 1
        self.dt = 0
        if self.calls > 400:
            raise Enough()
        if self.calls > 150 and self.script is None:     # long enough
            return "over" if kind == "process" else "ok"
        if self.script is not None:
            k = self.pos
            self.pos += 1
            if k < len(self.script):
                self.dt = self.script[k][3] if len(self.script[k]) > 3 else 0
                return self.script[k][2] if self.script[k][0] == kind and self.script[k][1] == i else "ok"
            return "over" if kind == "process" else "ok"
        if self.cfg["limit"] == "budget" and kind in ("start", "obs", "act"):
            self.dt = self.rng.choice([0, 0, 1, 1, 2, 5, self.cfg["bw"][i - 1], self.cfg["bt"][i - 1] // 4])
        p = self.rng.random()
        if kind == "process":
            return "over" if p < self.pend else "ok"
        if kind == "crash":
            return "ok"
        return "raise" if p < self.pfault else "ok"

    pend, pfault = .08, .02

    def cb(self, kind, i, **kw):
        out = self.outcome(kind, i)
        Clock.now += self.dt
        self.case.emit("g_cb", True, g=self.r, kind=kind, i=i, out=out, dt=self.dt, **kw)
        return out

    def agent_cb(self, kind, i, seen):
        self.said[i] += 1
        print("A%d;" % i)
        out = self.cb(kind, i, seen=num(seen))
        if out == "raise":
            raise ValueError("scripted")
        if out == "timeout":
            t = time.time()
            while time.time() - t < 2.5:
                time.sleep(.05)

    def run(self):
        L = self
        c = self.cfg = {"bt": [], "bw": [], "bm": [], **self.cfg}
        budget = c["limit"] == "budget"
        self.case.emit("g_new", True, r=self.r, cfg=c)

        class St:
            def __init__(self, v):
                self.v = v
                self.data = self

            def deepCopy(self):
                return St(self.v)

            def generateSuccessor(self, i, a):
                out = L.cb("apply", i + 1, seen=num(self.v), a=str(a), chosen=str(L.last))
                if out == "raise":
                    raise ValueError("illegal")
                L.moved.append([i + 1, str(a)])
                L.moves += 1
                return St(self.v + 1)

        class Rules:
            def agentCrash(self, g, i):
                L.cb("crash", i + 1)

            def process(self, st, g):
                if L.cb("process", 0) == "over":
                    g.gameOver = True

            def getProgress(self, g):
                return .5

            def getMaxTotalTime(self, i):
                return c["bt"][i] if budget else -1 if c["limit"] == "total" else 10000

            def getMaxStartupTime(self, i):
                return 10 ** 6 if budget else 1

            def getMoveWarningTime(self, i):
                return c["bw"][i] if budget else -1 if c["limit"] == "warn" else 10000

            def getMoveTimeout(self, i):
                return 10 ** 6 if budget else 1

            def getMaxTimeWarnings(self, i):
                return c["bm"][i] if budget else c["w"]

        class Display:
            def initialize(self, data):
                L.shown[0] += 1 if L.calls == 0 else 100

            def update(self, data):
                L.shown[1] += 1 if data.v == L.moves else 1000

            def finish(self):
                L.shown[2] += 1

        def make(i):
            if i in c["null"]:
                return None
            a = game.Agent(i - 1)
            cls = {"__init__": lambda self, k: game.Agent.__init__(self, k)}

            def act(self, st):
                v = st.v
                st.v = -77             # whatever an agent does with its observation stays its own affair
                L.agent_cb("act", i, v)
                L.last = "m%d" % L.rng.randrange(10 ** 6)
                return L.last
            cls["getAction"] = act
            if i in c["reg"]:
                def reg(self, st):
                    v = st.v
                    st.v = -77
                    L.agent_cb("start", i, v)
                cls["registerInitialState"] = reg
            if i in c["obs"]:
                def ob(self, st):
                    v = st.v
                    st.v = -77
                    L.agent_cb("obs", i, v)
                    return St(v)
                cls["observationFunction"] = ob
            if i in c["fin"]:
                def fin(self, st):
                    L.agent_cb("final", i, st.v)
                cls["final"] = fin
            return type("A%d" % i, (game.Agent,), cls)(i - 1)
        agents = [make(i) for i in range(1, c["n"] + 1)]
        out, err = io.StringIO(), io.StringIO()
        raised = False
        g = None
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err
        signal.setitimer(signal.ITIMER_VIRTUAL, 20)
        try:
            g = game.Game(agents, Display(), Rules(), startingIndex=c["first"] - 1, muteAgents=self.mute, catchExceptions=c["catch"])
            g.state = St(0)
            Clock.on = budget
            g.run()
        except Exception:
            raised = True
        except Hang:
            raised = True
        finally:
            Clock.on = False
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            restored = sys.stdout is out and sys.stderr is err
            sys.stdout, sys.stderr = REAL_OUT, REAL_ERR
            left = signal.alarm(0)
        kept = True
        leaked = 0
        if self.mute and g is not None:
            leaked = out.getvalue().count("A")
            kept = all(str(g.agentOutput[i - 1].getvalue()).count("A%d;" % i) == self.said[i] for i in self.said)
        self.case.emit("g_end", True, g=self.r, raised=raised, crashed=bool(g.agentCrashed), timeout=bool(g.agentTimeout), over=bool(g.gameOver),
                       moves=num(g.state.v), hist=[[num(i) + 1, str(a)] for i, a in g.moveHistory], moved=self.moved + [[0, "-"]] * 0,
                       shown=self.shown, alarm=num(left), restored=restored, leaked=leaked, kept=kept,
                       progress=num(g.getProgress()) if g.gameOver else 1)


def plan_loop(cx, case, pl):
    Loop(case, pl["cfg"], pl["log"], cx.rng, mute=cx.rng.random() < .4).run()


def rand_loop(cx, case, timeouts=False):
    rng = cx.rng
    n = rng.randint(1, 6)
    pick = lambda p: [i for i in range(1, n + 1) if rng.random() < p]
    cfg = dict(n=n, null=[], reg=pick(rng.choice([0, .5, 1])), obs=pick(rng.choice([0, .3, 1])), fin=pick(rng.choice([0, .5, 1])),
               first=rng.choice([1, 1, rng.randint(1, n)]), catch=rng.random() < .6, limit="none", w=1)
    if rng.random() < .1:
        x = rng.randint(1, n)
        cfg["null"] = [x]
        for k in ("reg", "obs", "fin"):
            cfg[k] = [i for i in cfg[k] if i != x]
    if cfg["catch"] and rng.random() < .25:
        cfg["limit"] = rng.choice(["warn", "warn", "total"])
        cfg["w"] = rng.choice([0, 1, 2, 5])
    elif cfg["catch"] and rng.random() < .5:
        cfg["limit"] = "budget"
        cfg["bt"] = [rng.choice([10, 30, 10 ** 6, 10 ** 6]) for _ in range(n)]
        cfg["bw"] = [rng.choice([0, 2, 4, 10 ** 6]) for _ in range(n)]
        cfg["bm"] = [rng.choice([0, 1, 3, 8]) for _ in range(n)]
    L = Loop(case, cfg, None, rng, mute=rng.random() < .4)
    L.pend = rng.choice([.3, .05, .02])
    L.pfault = rng.choice([0, 0, .02, .08])
    L.run()


class Recorder:
    def __init__(self):
        self.steps = []
        self.game = None

    def initialize(self, data):
        pass

    def update(self, data):
        if self.game is not None and len(self.steps) < 400:
            self.steps.append((self.game.moveHistory[-1], self.game.state))

    def finish(self):
        pass


class Walker(game.Agent):
    def __init__(self, rng, wild=0.0):
        game.Agent.__init__(self, 0)
        self.rng = rng
        self.n = 0

    def getAction(self, st):
        self.n += 1
        if self.n > 120:
            raise Enough()
        legal = st.getLegalPacmanActions()
        moves = [a for a in legal if a != "Stop"] or legal
        return toward(self.rng, st, 0, moves) if self.rng.random() < .6 else self.rng.choice(moves)


def real_game(cx, case, catch=None):
    """a whole game under the classic rules: every applied move is a step of the specification"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(5, 9), h=rng.randint(4, 7), dens=rng.choice([0, .2]), ghosts=rng.randint(1, 4))
    b = case.board(rows)
    lay = case.obj[b]
    if lay is None:
        return
    random.seed(rng.randrange(10 ** 9))
    k = rng.randint(0, 5)
    ghosts = [rng.choice([ghostAgents.RandomGhost, ghostAgents.DirectionalGhost])(i + 1) for i in range(k)]
    disp = Recorder()
    rules = pacman.ClassicGameRules(30)
    ok, g = case.call(lambda: rules.newGame(lay, Walker(rng), ghosts, disp, True, False if catch is None else catch))
    if not ok:
        case.emit("agents", False, b=b, n=k, res=[], states=0)
        return
    case.emit("agents", True, b=b, n=k, res=[num(a.index) for a in g.agents], states=num(g.state.getNumAgents()))
    disp.game = g
    s = case.start(b, k)
    sys.stdout = io.StringIO()
    try:
        ok, x = case.call(g.run)
    finally:
        sys.stdout = REAL_OUT
    cur = s
    ring = ["q1", "q2"]
    for j, ((i, a), st) in enumerate(disp.steps):
        r = ring[j % 2]
        case.obj[r] = st
        t = case.succn(cur, [[i + 1, a]], r="q3")        # the recorded move replayed
        case.emit("succ", True, r=r, s=cur, i=num(i) + 1, a=a, res=case.obs(st))
        if t:
            case.again(t, r)
        cur = r
    if disp.steps and not isinstance(x, Enough):
        for i in range(case.obj[cur].getNumAgents()):
            case.legal(cur, i)


def run_games(cx, case):
    """several games in a row, their record and their printed summary"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(5, 7), h=rng.randint(4, 6), dens=0, ghosts=rng.randint(1, 3), food=.4)
    b = case.board(rows)
    lay = case.obj[b]
    if lay is None:
        return
    random.seed(rng.randrange(10 ** 9))
    n = rng.randint(1, 3)
    k = rng.randint(1, 4)
    out = io.StringIO()
    seen = []
    d = Recorder()
    w = Walker(rng)
    real = pacman.ClassicGameRules.newGame

    def fresh(*a, **kw):       # a new walk for every game
        w.n = 0
        return real(*a, **kw)
    pacman.ClassicGameRules.newGame = fresh
    sys.stdout = out
    try:
        ok, games = case.call(lambda: pacman.runGames(lay, w, [ghostAgents.RandomGhost(i + 1) for i in range(k)], d, n, True))
    finally:
        sys.stdout = REAL_OUT
        pacman.ClassicGameRules.newGame = real
    recs = sorted(f for f in os.listdir(".") if f.startswith("recorded-game"))
    files = []
    for f in recs:
        with open(f, "rb") as h:
            files.append((f, pickle.load(h)))
        os.unlink(f)
    if not ok:
        if not isinstance(games, Enough):
            case.emit("summary", False, games=[], scores=[], record=[], err=repr(games)[:200])
        return
    regs = []
    files.sort(key=lambda x: int(x[0][len("recorded-game-"):].split("-")[0][:1]))
    for j, g in enumerate(games):
        s = case.start(b, k)
        r = case.succn(s, [[i + 1, a] for i, a in g.moveHistory])
        if not r:
            return
        if j < len(files):
            q = case.succn(s, [[i + 1, a] for i, a in files[j][1]["actions"]])
            if q:
                case.again(r, q)
        regs.append(r)
        case.obj["z"] = g.state
        t = case.new("s", g.state)
        case.emit("succn", True, r=t, s=s, h=[[num(i) + 1, a] for i, a in g.moveHistory], res=case.obs(g.state), err="")
        case.again(r, t)
    case.emit("summary", True, games=regs, err="", **summary_of(out.getvalue(), len(regs)))


def summary_of(text, n):
    told = []
    lines = {}
    for x in text.split("\n"):
        if ":" not in x:
            continue
        k, v = x.split(":", 1)
        if "victorious" in k or "died" in k:
            told.append(["victorious" in k, num(float(v))])
        else:
            lines[k.strip()] = v.strip()
    rate = re.match(r"(\d+)/(\d+) \((\d+)\.(\d\d)\)$", lines.get("Win Rate", ""))
    avg = float(lines["Average Score"]) * n
    return dict(scores=[num(float(x)) for x in lines["Scores"].split(",")], record=[x.strip() == "Win" for x in lines["Record"].split(",")],
                told=told, total=num(round(avg)) if abs(avg - round(avg)) < 1e-5 else -10 ** 9,
                rate=[int(rate[1]), int(rate[2]), 100 * int(rate[3]) + int(rate[4])] if rate else [])


def rules_case(cx, case):
    """the rules of a game: who plays, time limits, what is announced, how far it got"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(5, 8), h=rng.randint(4, 6), dens=0, ghosts=rng.randint(1, 3), food=rng.choice([.1, .4, .7]))
    b = case.board(rows)
    if case.obj[b] is None or not case.obj[b].totalFood:
        return
    k = rng.randint(1, 4)
    limit = rng.choice([1, 7, 30, 100])
    ok, rules = case.call(lambda: pacman.ClassicGameRules(limit))
    if ok and rng.random() < .5:       # the rules were used for another game before
        b0 = case.board(rand_rows(rng, w=rng.randint(5, 8), h=rng.randint(4, 6), dens=0, ghosts=rng.randint(1, 3), food=rng.choice([.1, .4, .7])))
        if case.obj[b0] is not None:
            case.call(lambda: rules.newGame(case.obj[b0], Walker(rng), [ghostAgents.RandomGhost(1)], Recorder(), *([True, True] if rng.random() < .5 else [])))
    ok2, g = case.call(lambda: rules.newGame(case.obj[b], Walker(rng), [ghostAgents.RandomGhost(i + 1) for i in range(k)], Recorder()))
    s = case.start(b, k)
    if not (ok and ok2 and s):
        return
    n = case.obj[s].getNumAgents()
    for i in range(n):
        out = io.StringIO()

        def f():
            sys.stdout = out
            try:
                rules.agentCrash(g, i)
            finally:
                sys.stdout = REAL_OUT
            return [num(v) for v in (rules.getMaxTotalTime(i), rules.getMaxStartupTime(i), rules.getMoveWarningTime(i), rules.getMoveTimeout(i), rules.getMaxTimeWarnings(i))]
        ok, x = case.call(f)
        t = out.getvalue().lower()
        case.emit("limits", ok, limit=limit, i=i + 1, res=x if ok else [], says=["pacman" in t, "ghost" in t])
    regs = ["t1", "t2"]
    for _ in range(30):
        o = case.obj[s]
        g.state = o
        ok, x = case.call(lambda: num(round(1000000 * rules.getProgress(g))))
        case.emit("left", ok, s=s, res=x if ok else -1)
        out = io.StringIO()

        def f():
            g.gameOver = False
            sys.stdout = out
            try:
                rules.process(o, g)
            finally:
                sys.stdout = REAL_OUT
            m = re.findall(r"(victorious|died).*?(-?\d+)", out.getvalue())
            return [[w == "victorious", int(v)] for w, v in m], bool(g.gameOver)
        ok, x = case.call(f)
        case.emit("process", ok, s=s, told=x[0] if ok else [], over=x[1] if ok else False)
        if o.isWin() or o.isLose():
            break
        i = rng.choice([0] * 3 + list(range(n)))
        q = [a for a in o.getLegalActions(i)]
        if not q:
            continue
        a = toward(rng, o, i, q) if rng.random() < .7 else rng.choice(q)
        s2 = case.succ(s, i, a, r=next(r for r in regs if r != s))
        if not s2:
            return
        s = s2


@driver("C28")
def c28(cx):
    ps = cx.plans.get("MC_GameLoop", [])
    slow = [p for p in ps if any(x[2] == "timeout" for x in p["log"])]
    fast = [p for p in ps if not any(x[2] == "timeout" for x in p["log"])]
    for pl in some(cx, fast, 10 ** 6, 10 ** 6):
        yield cx.run("plan", plan_loop, pl)
    for pl in some(cx, slow, 4, 40):
        yield cx.run("timeout", plan_loop, pl)
    for pl in some(cx, cx.plans.get("MC_Budget", []), 120, 4000):
        yield cx.run("budget", plan_loop, pl)
    for _ in range(cx.n(160, 1800)):
        yield cx.run("loop", rand_loop)
    for _ in range(cx.n(3, 30)):
        yield cx.run("game", real_game, cx.rng.random() < .5)
    for _ in range(cx.n(2, 15)):
        yield cx.run("games", run_games)
    for _ in range(cx.n(12, 120)):
        yield cx.run("rules", rules_case)


# ============================================================================= C29: containers
class Blob:
    """an item that can not be compared with others of its kind, only told apart"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Blob) and o.n == self.n

    __hash__ = None


def make_item(style, n):
    return n if style == "int" else "x%d" % n if style == "str" else Blob(n) if style == "blob" else {"n": n} if style == "dict" else (n, None) if style == "tuple" else [n]


def item_no(style, x):
    try:
        return num(x if style == "int" else int(x[1:]) if style == "str" else x.n if style == "blob" else x["n"] if style == "dict" else x[0])
    except Exception:
        return -2000000000


class BoxRec:
    def __init__(self, case, kind, style, pscale=1):
        self.case, self.kind, self.style, self.ps = case, kind, style, pscale
        self.prio, self.known = {}, {}
        if kind == "pqf":
            self.o = util.PriorityQueueWithFunction(lambda x: self.prio[item_no(style, x)] * pscale)
        else:
            self.o = dict(stack=util.Stack, queue=util.Queue, pq=util.PriorityQueue)[kind]()
        self.r = case.new("x", self.o)
        case.emit("box", True, r=self.r, k=kind, empty=bool(self.o.isEmpty()))

    def push(self, n, pr=0):
        x = make_item(self.style, n)
        if self.kind == "pqf":          # what is asked of an item may change; the one in the queue stays where it is
            x = self.known.setdefault(n, x)
            self.prio[n] = pr
        ok, y = self.case.call(lambda: self.o.push(x, pr * self.ps) if self.kind == "pq" else self.o.push(x))
        self.case.emit("push", ok, b=self.r, x=n, pr=pr, empty=bool(self.o.isEmpty()), err="" if ok else repr(y)[:100])

    def update(self, n, pr):
        ok, y = self.case.call(lambda: self.o.update(make_item(self.style, n), pr * self.ps))
        self.case.emit("update", ok, b=self.r, x=n, pr=pr, empty=bool(self.o.isEmpty()), err="" if ok else repr(y)[:100])

    def pop(self):
        ok, x = self.case.call(lambda: self.o.pop())
        self.case.emit("pop", ok, b=self.r, x=item_no(self.style, x) if ok else 0, empty=bool(self.o.isEmpty()))


STYLES = ["int", "str", "blob", "dict", "tuple", "list"]


def plan_box(cx, case, pl):
    st = cx.rng.choice(STYLES)
    b = BoxRec(case, pl["k"], st, cx.rng.choice([1, .5, -0.0 + 1]))
    live = 0
    for h in pl["h"]:
        if h["op"] == "push":
            b.push(h["x"], h["pr"])
        elif h["op"] == "update":
            b.update(h["x"], h["pr"])
        else:
            b.pop()
    for _ in range(len(pl["h"])):
        if b.o.isEmpty():
            break
        b.pop()


def rand_box(cx, case):
    rng = cx.rng
    kind = rng.choice(["stack", "queue", "pq", "pq", "pqf", "pqf"])
    b = BoxRec(case, kind, rng.choice(STYLES), rng.choice([1, .25, 1]))
    others = [BoxRec(case, kind, b.style)] if rng.random() < .3 else []
    inside = []          # bookkeeping for unique updates only
    n = 0
    unique = kind == "pq" and rng.random() < .6
    pmax = rng.choice([1, 3, 20])
    lo = rng.choice([0, -3])
    seen = {}
    for _ in range(rng.randint(5, 60)):
        k = rng.random()
        if others and rng.random() < .15:
            others[0].push(rng.randint(1, 5), 0)
        if k < .5:
            if unique or kind == "pqf" or rng.random() < .5:
                if kind == "pqf" and n and rng.random() < .3:
                    x = rng.randint(1, n)
                else:
                    n += 1
                    x = n
            else:
                x = rng.randint(1, 4)
            b.push(x, rng.randint(lo, pmax))
        elif k < .7 and unique:
            x = rng.randint(1, n + 1)
            n = max(n, x)
            b.update(x, rng.randint(lo, pmax))
        elif not b.o.isEmpty():
            b.pop()
    for _ in range(70):
        if b.o.isEmpty():
            break
        b.pop()
    if rng.random() < .3:
        b.pop()


@driver("C29")
def c29(cx):
    for pl in some(cx, cx.plans.get("MC_Containers", []), 1200, 30000):
        yield cx.run("plan", plan_box, pl)
    for _ in range(cx.n(150, 2000)):
        yield cx.run("box", rand_box)


# ============================================================================= C30: counters
class CountRec:
    def __init__(self, case):
        self.case = case
        self.scale = 1          # a power of two: what counts as one in new counters
        self.sc = {}

    def dump(self, c, k=1):
        """without touching absent keys"""
        return [[x, frac(v / k)] for x, v in dict.items(c)]

    def new(self, init, how="set"):
        def f():
            if how == "dict":
                return util.Counter({k: v * self.scale for k, v in init.items()})
            c = util.Counter()
            for k, v in init.items():
                c[k] = v * self.scale
            return c
        ok, c = self.case.call(f)
        r = self.case.new("c", c)
        self.sc[r] = self.scale
        self.case.emit("counter", ok, r=r, init=[[k, frac(v)] for k, v in init.items()], res=self.dump(c, self.scale) if ok else [])
        return r if ok else None

    def small(self, c, d, name):
        """whether the exact results of the operation stay representable (sizes only, nothing is judged here)"""
        def of(r):
            return {k: Fraction(*v) for k, v in self.dump(self.case.obj[r], self.sc[r])}
        a, b = of(c), of(d)
        if name in ("cadd", "csub", "ciadd") and self.sc[c] != self.sc[d] or name == "cdot" and (self.sc[c] != 1 or self.sc[d] != 1):
            return False
        def fit(xs, n=600, m=120):
            xs = list(xs)
            l = 1
            for x in xs:
                l = l * x.denominator // math.gcd(l, x.denominator)
            return l <= m and all(abs(x.numerator) <= n for x in xs) and abs(sum(xs) * l) <= 20000
        if not fit(list(a.values()) + list(b.values())):
            return False
        if name in ("cnorm", "cnormed"):
            t = sum(a.values())
            if not t:               # only sums that are exact in floating point, in any order
                return all(Fraction(v) == Fraction(*frac(v)) for v in dict.values(self.case.obj[c]))
            return fit(x / t for x in a.values())
        if name == "cdot":
            return fit((a[k] * b[k] for k in a if k in b), 2000, 1000)
        if name == "cdiv":
            return fit((x / 6 for x in a.values()), 600, 120)
        return True

    def op(self, name, c, d=None, **kw):
        o = self.case.obj
        a, b = o[c], o[d] if d else None
        v = kw.get("v")
        k = self.sc[c]
        case = self.case
        if name in ("cadd", "csub"):
            ok, x = case.call(lambda: a + b if name == "cadd" else a - b)
            r = case.new("c", x) if ok else "-"
            self.sc[r] = k
            case.emit(name, ok, r=r, c=c, d=d, res=self.dump(x, k) if ok else [], c1=self.dump(a, k), d1=self.dump(b, k))
            return r if ok else None
        if name == "ciadd":            # a += b
            def f():
                y = a.copy()
                y += b
                return y
            ok, x = case.call(f)
            r = case.new("c", x) if ok else "-"
            self.sc[r] = k
            case.emit("cadd", ok, r=r, c=c, d=d, res=self.dump(x, k) if ok else [], c1=self.dump(a, k), d1=self.dump(b, k))
            return r if ok else None
        if name == "cdot":
            ok, x = case.call(lambda: a * b)
            case.emit(name, ok, c=c, d=d, v=frac(x) if ok else [0, 1], c1=self.dump(a, k), d1=self.dump(b, k))
        elif name == "cget":
            ok, x = case.call(lambda: a[kw["x"]])
            case.emit(name, ok, c=c, x=kw["x"], v=frac(x / k) if ok else [0, 1], res=self.dump(a, k))
        elif name == "cset":
            ok, x = case.call(lambda: a.__setitem__(kw["x"], v * k))
            case.emit(name, ok, c=c, x=kw["x"], v=frac(v), res=self.dump(a, k))
        elif name == "cinc":
            ok, x = case.call(lambda: a.incrementAll(kw["xs"], v * k))
            case.emit(name, ok, c=c, xs=kw["xs"], v=frac(v), res=self.dump(a, k))
        elif name == "cdiv":
            ok, x = case.call(lambda: a.divideAll(v))
            case.emit(name, ok, c=c, v=frac(v), res=self.dump(a, k))
        elif name == "cnorm":
            t = sum(dict.values(a))
            ok, x = case.call(lambda: a.normalize())
            k = self.sc[c] = 1 if t else k
            case.emit(name, ok, c=c, res=self.dump(a, k))
        elif name == "cnormed":
            ok, x = case.call(lambda: util.normalize(a))
            r = case.new("c", x.copy() if x is a else x) if ok else "-"        # nothing to normalise: the same object
            self.sc[r] = 1 if sum(dict.values(a)) else k
            case.emit(name, ok, c=c, r=r, res=self.dump(x, self.sc[r]) if ok else [], c1=self.dump(a, k))
            return r if ok else None
        elif name == "ccopy":
            ok, x = case.call(lambda: a.copy())
            r = case.new("c", x) if ok else "-"
            self.sc[r] = k
            case.emit(name, ok, c=c, r=r, res=self.dump(x, k) if ok else [])
            return r if ok else None
        elif name == "clook":
            case.emit(name, True, c=c, res=self.dump(a, k))
        elif name == "ctotal":
            ok, x = case.call(lambda: a.totalCount())
            case.emit(name, ok, c=c, v=frac(x / k) if ok else [0, 1])
        elif name == "cargmax":
            ok, x = case.call(lambda: a.argMax())
            case.emit(name, ok, c=c, x=[] if not ok or x is None else [x], res=self.dump(a, k))
        elif name == "csorted":
            ok, x = case.call(lambda: list(a.sortedKeys()))
            case.emit(name, ok, c=c, xs=x if ok else [], res=self.dump(a, k))


def rand_counter(cx, case):
    rng = cx.rng
    R = CountRec(case)
    keys = ["k%d" % i for i in range(rng.choice([2, 4, 7]))]
    val = lambda: rng.choice([0, 1, 1, 2, 3, -1, -2, 5, .5, 1.5, -.25])
    if rng.random() < .3:
        R.scale = 2.0 ** rng.choice([-40, -30, -24, -10, 20, 40])
    regs = []
    for _ in range(2):
        r = R.new({k: val() for k in keys if rng.random() < .6}, rng.choice(["set", "dict"]))
        if not r:
            return
        regs.append(r)
    for _ in range(rng.randint(6, 25)):
        c, d = rng.choice(regs), rng.choice(regs)
        name = rng.choice(["cadd", "csub", "ciadd", "cdot", "cget", "cset", "cinc", "cdiv", "cnorm", "cnormed", "ccopy", "clook", "ctotal", "cargmax", "csorted"])
        if not R.small(c, d, name):
            continue
        kw = {}
        if name in ("cget", "cset"):
            kw["x"] = rng.choice(keys + ["absent"])
        if name == "cset":
            kw["v"] = val()
        if name == "cinc":
            kw["xs"] = [rng.choice(keys) for _ in range(rng.randint(0, 4))]
            kw["v"] = val()
        if name == "cdiv":
            kw["v"] = rng.choice([1, 2, 4, -2, .5, 3])
        r = R.op(name, c, d, **kw)
        if r:
            regs.append(r)
            if len(regs) > 4:
                regs.pop(0)
    for r in regs:
        R.op("clook", r)


def many_keys(cx, case):
    rng = cx.rng
    R = CountRec(case)
    keys = ["k%d" % i for i in range(rng.choice([20, 70, 140, 300]))]
    regs = [R.new({k: rng.choice([0, 1, 1, 2, 3, -1]) for k in keys if rng.random() < .97}, how) for how in ("set", "dict")]
    if not all(regs):
        return
    for name in rng.sample(["cadd", "csub", "cdot", "cdot", "ctotal", "cargmax", "ccopy"], 4):
        R.op(name, *regs)


def plan_counter(cx, case, pl):
    R = CountRec(case)
    init = pl[0]
    f = lambda x: dict(x) if isinstance(x, dict) else {}
    a, b = R.new(f(init[1])), R.new(f(init[2]), "dict")
    if not a or not b:
        return
    for h in pl[1:]:
        if h[0] == "swap":
            a, b = b, a
            continue
        r = R.op({"add": "cadd", "sub": "csub", "norm": "cnorm", "divide": "cdiv", "inc": "cinc", "set": "cset"}[h[0]], a, b,
                 **({"v": 2} if h[0] == "divide" else {"xs": [h[1], "k1"], "v": 2} if h[0] == "inc" else {"x": h[1], "v": -1} if h[0] == "set" else {}))
        a = r or a
    for n in ("ctotal", "cargmax", "csorted", "cnormed", "clook"):
        if R.small(a, b, n):
            R.op(n, a)
    if R.small(a, b, "cdot"):
        R.op("cdot", a, b)
    R.op("clook", b)
    c = R.op("ccopy", a)
    if c:
        R.op("cset", c, x="k1", v=7)
        R.op("clook", a)
    R.op("cget", a, x="zz")


def vector_case(cx, case):
    rng = cx.rng
    for _ in range(5):
        v = [rng.choice([0, 1, 2, 3, .5, 4]) for _ in range(rng.randint(1, 5))]
        ok, x = case.call(lambda: list(util.normalize(list(v))))
        case.emit("vnorm", ok, v=[frac(a) for a in v], res=[frac(a) for a in x] if ok else [])
        vs = [rng.choice("abc") for _ in v]
        ps = [a / 8 for a in v]
        k = rng.choice("abcd")
        ok, x = case.call(lambda: util.getProbability(k, ps, vs))
        case.emit("prob", ok, x=k, ps=[frac(a) for a in ps], vs=vs, v=frac(x) if ok else [0, 1])
    # fixed generators: each gives the same draws, whatever is drawn elsewhere
    fs = []

    def draws():
        n = rng.randint(2, 4)
        out = [[] for _ in range(n)]
        del fs[:]
        for j in range(rng.randint(10, 60)):
            i = rng.randrange(n)
            while len(fs) <= i:
                fs.append(util.FixedRandom())
            out[i].append(fs[i].random.randrange(1000000))
            if rng.random() < .2:
                random.seed(j)
            random.random()
        return out
    ok, x = case.call(draws)
    case.emit("fixed", ok, res=x if ok else [], err="" if ok else repr(x)[:100])


@driver("C30")
def c30(cx):
    for pl in some(cx, cx.plans.get("MC_Counters", []), 400, 6000):
        yield cx.run("plan", plan_counter, pl)
    for _ in range(cx.n(150, 2500)):
        yield cx.run("counter", rand_counter)
    for _ in range(cx.n(10, 100)):
        yield cx.run("vector", vector_case)
    for _ in range(cx.n(8, 80)):
        yield cx.run("many", many_keys)


# ============================================================================= C31: grids and layouts
class GridRec:
    def __init__(self, case):
        self.case = case

    def dump(self, g):
        return dict(w=num(g.width), h=num(g.height), on=[[x, y] for x in range(g.width) for y in range(g.height) if g[x][y] is True or g[x][y] == 1])

    E = dict(w=0, h=0, on=[])

    def new(self, w, h, v=None):
        ok, g = self.case.call(lambda: game.Grid(w, h) if v is None else game.Grid(w, h, v))
        r = self.case.new("g", g)
        self.case.emit("grid", ok, r=r, w=w, h=h, v=bool(v), res=self.dump(g) if ok else self.E)
        return r if ok else None

    def write(self, g, x, y, v):
        o = self.case.obj[g]
        ok, _ = self.case.call(lambda: o[x].__setitem__(y, v))
        self.case.emit("gwrite", ok, g=g, x=x, y=y, v=v, res=self.dump(o))

    def copy(self, g, how="copy"):
        o = self.case.obj[g]
        ok, x = self.case.call(lambda: o.copy() if how == "copy" else o.deepCopy())
        r = self.case.new("g", x) if ok else None
        self.case.emit("gcopy", ok, g=g, r=r or "-", res=self.dump(x) if ok else self.E)
        return r

    def pack(self, g):
        o = self.case.obj[g]
        ok, x = self.case.call(lambda: game.reconstituteGrid(o.packBits()))
        r = self.case.new("g", x) if ok else None
        self.case.emit("gpack", ok, g=g, r=r or "-", res=self.dump(x) if ok else self.E, eq=bool(x == o) if ok else False)
        return r

    def look(self, g):
        self.case.emit("glook", True, g=g, res=self.dump(self.case.obj[g]))

    def list(self, g, v):
        o = self.case.obj[g]
        ok, x = self.case.call(lambda: (o.asList(v), o.count(v)) if v is not True else (o.asList(), o.count()))
        self.case.emit("glist", ok, g=g, v=v, xs=[list(c) for c in x[0]] if ok else [], n=num(x[1]) if ok else 0)

    def eq(self, g, h):
        a, b = self.case.obj[g], self.case.obj[h]
        ok, x = self.case.call(lambda: (bool(a == b), hash(a) == hash(b)))
        self.case.emit("geq", ok, g=g, h=h, res=x[0] if ok else False, hash=x[1] if ok else False)

    def text(self, g):
        ok, x = self.case.call(lambda: str(self.case.obj[g]).split("\n"))
        self.case.emit("gtext", ok, g=g, rows=x if ok else [])


def rand_grid(cx, case):
    rng = cx.rng
    R = GridRec(case)
    big = rng.random() < .4
    w, h = (rng.randint(3, 14), rng.randint(3, 14)) if big else (rng.randint(1, 4), rng.randint(1, 4))
    if rng.random() < .04:
        w, h = rng.sample([rng.randint(60, 140), rng.randint(2, 4)], 2)
    g = R.new(w, h, rng.choice([None, False, True]))
    if not g:
        return
    regs = [g]
    other = R.new(h, w, False)
    if other:
        regs.append(other)
    for _ in range(rng.randint(5, 40)):
        g = rng.choice(regs)
        o = case.obj[g]
        k = rng.random()
        if k < .5:
            R.write(g, rng.randrange(o.width), rng.randrange(o.height), rng.random() < .5)
        elif k < .65:
            r = R.copy(g, rng.choice(["copy", "deep"]))
            if r:
                regs.append(r)
        elif k < .75:
            r = R.pack(g)
            if r:
                regs.append(r)
        elif k < .85:
            R.list(g, rng.random() < .6)
        elif k < .95:
            R.eq(g, rng.choice(regs))
        else:
            R.text(g)
        if len(regs) > 5:
            R.look(regs.pop(0))
    for g in regs:
        R.look(g)
        R.pack(g)


def plan_grid(cx, case, pl):
    R = GridRec(case)
    _, w, h, v = pl[0]
    g = R.new(w, h, v)
    if not g:
        return
    c = R.copy(g)
    for x in pl[1:]:
        if x[0] == "write":
            R.write(g, x[1], x[2], x[3])
        elif x[0] == "copy":
            c = R.copy(g) or c
        else:
            g, c = c, g
    for r in (g, c):
        if r:
            R.look(r)
            R.list(r, True)
            R.list(r, False)
            R.pack(r)
    if c:
        R.eq(g, c)
    R.text(g)


def neighbours(case, b, pos):
    ok, x = case.call(lambda: game.Actions.getLegalNeighbors(pos, case.obj[b].walls))
    case.emit("neighbors", ok, b=b, pos=list(pos), res=[list(c) for c in x] if ok else [])


def layout_case(cx, case):
    rng = cx.rng
    if rng.random() < .6:
        rows = rand_rows(rng)
    elif rng.random() < .12:        # long or high
        rows = rand_rows(rng, *rng.sample([rng.randint(60, 140), rng.randint(3, 5)], 2))
    else:        # any text, not only playable ones
        w, h = rng.randint(1, 6), rng.randint(1, 5)
        cells = [rng.choice("%%.. oG1234xZ") for _ in range(w * h)]
        cells[rng.randrange(w * h)] = "P"
        rows = ["".join(cells[y * w:(y + 1) * w]) for y in range(h)]
    b = case.board(rows)
    lay = case.obj[b]
    if lay is None:
        return
    d = case.call(lambda: lay.deepCopy())
    if d[0]:
        case.board(rows, d[1])
    else:
        case.board(rows, d[1])
    px, py = rng.randrange(len(rows[0])), rng.randrange(len(rows))
    if len(rows) > 2 and len(rows[0]) > 2:
        ok, x = case.call(lambda: lay.getFurthestCorner((px, py)))
        case.emit("corner", ok, b=b, pos=[px, py], res=list(x) if ok else [])
        if rng.random() < .5:
            random.seed(rng.randrange(10 ** 6))
            ok, x = case.call(lambda: sorted({tuple(lay.getRandomCorner()) for _ in range(300)}))
            case.emit("corners", ok, b=b, res=[list(c) for c in x] if ok else [])
    if any(ch != "%" for r in rows for ch in r):
        random.seed(rng.randrange(10 ** 6))
        for _ in range(3):
            ok, x = case.call(lambda: lay.getRandomLegalPosition())
            case.emit("legalpos", ok, b=b, res=list(x) if ok else [])
    neighbours(case, b, (px, py))
    s = case.start(b, rng.choice([1000, 0, 1, 2]))
    if s:
        case.board_text(s)
        case.cells(s)


def file_case(cx, case):
    """layouts found by name, from the working directory upwards"""
    rng = cx.rng
    base = os.path.abspath("lay%d" % rng.randrange(10 ** 9))
    deep = os.path.join(base, "x", "y")
    os.makedirs(deep)
    rows = rand_rows(rng)
    name = rng.choice(["zz%d", "zz%d", "my.layers%d", "old.lay.%d", "a map %d", "Plan-%d.x"]) % rng.randrange(1000)
    dirs = [base, os.path.join(base, "x"), deep]
    at = rng.randrange(3)
    where = dirs[at]
    sub = rng.random() < .6

    def put(where, sub, rows):
        if sub:
            os.makedirs(os.path.join(where, "layouts"), exist_ok=True)
        with open(os.path.join(where, "layouts" if sub else "", name + ".lay"), "w", newline="") as h:
            end = rng.choice(["\n", "\n", "\r\n", " \n"])
            h.write(end.join(rows) + rng.choice(["", end]))
    put(where, sub, rows)
    for far in dirs[:at]:         # others of the same name, further up
        if rng.random() < .4:
            put(far, rng.random() < .5, rand_rows(rng))
    here = os.getcwd()
    os.chdir(deep)
    try:
        ok, x = case.call(lambda: layout.getLayout("missing%d" % rng.randrange(10 ** 6) + rng.choice(["", ".lay"])))
        case.emit("missing", True, found=ok and x is not None, kept=os.getcwd() == deep)
        os.chdir(deep)
        ok, x = case.call(lambda: layout.getLayout(name + (".lay" if rng.random() < .4 else "")))
        after = os.getcwd()
    finally:
        os.chdir(here)
    if ok and x is not None and after == deep:
        case.board(rows, x)
    else:
        case.emit("board", False, r="-", rows=rows, res={}, err="layout not found, or working directory changed: %r" % (x,))
    import shutil
    shutil.rmtree(base, ignore_errors=True)


@driver("C31")
def c31(cx):
    for pl in some(cx, cx.plans.get("MC_Grids", []), 200, 4000):
        yield cx.run("plan", plan_grid, pl)
    for _ in range(cx.n(50, 700)):
        yield cx.run("grid", rand_grid)
    for _ in range(cx.n(60, 900)):
        yield cx.run("layout", layout_case)
    for _ in range(cx.n(12, 80)):
        yield cx.run("file", file_case)


# ============================================================================= C32: agents
ARROWS = {"North": ["w", "Up"], "South": ["s", "Down"], "East": ["d", "Right"], "West": ["a", "Left"], "Stop": ["q"]}
SECOND = {"North": ["i"], "South": ["k"], "East": ["l"], "West": ["j"], "Stop": ["u"]}


def ghosts_choose(cx, case, s):
    rng = cx.rng
    o = case.obj[s]
    for i in range(1, o.getNumAgents()):
        ok, x = case.call(lambda: ghostAgents.RandomGhost(i).getDistribution(o))
        case.emit("uniform", ok, s=s, i=i + 1, res=[[k, frac(v)] for k, v in x.items()] if ok else [])
        if case.legal(s, i):
            pa, pf = rng.choice([(.8, .8), (.5, 1.0), (1.0, .25), (0.0, .5)])
            ok, x = case.call(lambda: (ghostAgents.DirectionalGhost(i, pa, pf) if (pa, pf) != (.8, .8) else ghostAgents.DirectionalGhost(i)).getDistribution(o))
            case.emit("toward", ok, s=s, i=i + 1, pa=frac(pa), pf=frac(pf), res=[[k, frac(v)] for k, v in x.items()] if ok else [])
            random.seed(rng.randrange(10 ** 6))
            ok, x = case.call(lambda: ghostAgents.DirectionalGhost(i).getAction(o))
            case.emit("choose", ok, s=s, i=i + 1, a=str(x))
        ok, x = case.call(lambda: ghostAgents.RandomGhost(i).getAction(o))
        case.emit("choose", ok, s=s, i=i + 1, a=str(x))


def keyboard(cx, case, s, who):
    """who: [agent, remembered keys, last move]"""
    rng = cx.rng
    o = case.obj[s]
    ag, mp, keys, last = who
    allk = [k for v in mp.values() for k in v] + ["z", "space"]
    KEYS.waiting = rng.sample(allk, rng.choice([0, 0, 1, 1, 2, 3]))
    KEYS.pressed = rng.sample(allk, rng.choice([0, 0, 0, 1]))
    new = KEYS.waiting + KEYS.pressed
    keys = new or keys
    random.seed(rng.randrange(10 ** 6))
    ok, x = case.call(lambda: ag.getAction(o))
    case.emit("keys", ok, s=s, i=num(ag.index) + 1, a=str(x), keys=keys, last=last, map=[[k, v] for k, v in mp.items()])
    who[2], who[3] = keys, x if ok else last
    return x if ok else None


def agents_case(cx, case):
    rng = cx.rng
    big = rng.random() < .3
    rows = rand_rows(rng, w=rng.randint(20, 34) if big else None, h=rng.randint(3, 5) if big else None, ghosts=rng.randint(1, 3), caps=rng.choice([.1, .3]), food=.3)
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s = case.start(b)
    if not s:
        return
    n = case.obj[s].getNumAgents()
    for _ in range(6 if big else 1):
        z = case.pose(s, rng)
        if z:
            ghosts_choose(cx, case, z)
    two = rng.random() < .3 and hasattr(keyboardAgents, "KeyboardAgent2")
    who = [keyboardAgents.KeyboardAgent2() if two else keyboardAgents.KeyboardAgent(), SECOND if two else ARROWS, [], "Stop"]
    regs = ["t1", "t2"]
    for k in range(40):
        o = case.obj[s]
        if o.isWin() or o.isLose():
            ghosts_choose_end(cx, case, s)
            return
        i = k % n
        if i == 0:
            a = keyboard(cx, case, s, who)
            ghosts_choose(cx, case, s)
        else:
            q = case.legal(s, i)
            if not q:
                continue
            a = toward(rng, o, i, q) if rng.random() < .5 else rng.choice(q)
        if a is None:
            return
        s = case.succ(s, i, a, r=regs[k % 2])
        if not s:
            return


def ghosts_choose_end(cx, case, s):
    for i in range(1, case.obj[s].getNumAgents()):
        ok, x = case.call(lambda: ghostAgents.RandomGhost(i).getAction(case.obj[s]))
        case.emit("choose", ok, s=s, i=i + 1, a=str(x))


def plan_agents(cx, case, pl):
    b = case.board(pl["b"])
    s = case.start(b)
    if s and pl["h"]:
        s = case.succn(s, pl["h"])
    if not s:
        return
    if case.obj[s].isWin() or case.obj[s].isLose():
        return ghosts_choose_end(cx, case, s)
    ghosts_choose(cx, case, s)
    keyboard(cx, case, s, [keyboardAgents.KeyboardAgent(), ARROWS, [], "Stop"])


def keys_case(cx, case, pls):
    """one keyboard agent asked in many unrelated states"""
    rng = cx.rng
    two = rng.random() < .3
    who = [keyboardAgents.KeyboardAgent2() if two else keyboardAgents.KeyboardAgent(), SECOND if two else ARROWS, [], "Stop"]
    for pl in pls:
        rows = pl["b"] if pl and rng.random() < .5 else rand_rows(rng, dens=rng.choice([.3, .5, .7]), w=rng.randint(4, 6), h=rng.randint(3, 5))
        b = case.board(rows)
        s = case.start(b)
        if s and pl and rows is pl["b"] and pl["h"]:
            s = case.succn(s, pl["h"])
        if s and not case.obj[s].isWin() and not case.obj[s].isLose():
            for _ in range(rng.randint(1, 3)):
                keyboard(cx, case, s, who)


@driver("C32")
def c32(cx):
    ps = cx.plans.get("MC_Pacman", [])
    for _ in range(cx.n(40, 400)):
        yield cx.run("keys", keys_case, cx.rng.sample(ps, 8) if len(ps) > 8 else [None] * 8)
    for pl in some(cx, cx.plans.get("MC_Pacman", []), 90, 1500):
        yield cx.run("plan", plan_agents, pl)
    for _ in range(cx.n(22, 250)):
        yield cx.run("agents", agents_case)
    for _ in range(cx.n(8, 90)):
        yield cx.run("runout", runout, ghosts_choose)


# ============================================================================= C33: draws
def draw_case(cx, case):
    rng = cx.rng
    m = rng.choice([1, 2, 3, 4, 5, 6, 8])
    ws = [rng.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(m)]
    if not sum(ws):
        ws[rng.randrange(m)] = 1
    if rng.random() < .4:
        t = sum(ws)
        ws = [w / t for w in ws]
    else:
        ws = [w * rng.choice([1, 1, .125, 1 / 64, 10]) for w in ws[:1]] + ws[1:] if rng.random() < .2 else [w * k for k in [rng.choice([1, .125, 1 / 64, 16])] for w in ws]
    if any(Fraction(frac(w / sum(ws))[0], frac(w / sum(ws))[1]).denominator > 300 for w in ws):
        ws = [1] * m        # keeps the arithmetic of the specification small
    vs = rng.choice([["v%d" % i for i in range(m)], rng.sample([1, 2, 3, 10, 11, 20, 100, 101, 1000, -1, -10, 0], m),
                     rng.sample([(1, 2), (1, 10), (10, 1), (2, 1), (2, 11), (10, 10), (3, 0), (3,), (20, 1)], m),
                     rng.sample([.5, 1.5, 10.25, 2.0, 100.5, 11.0, -2.5, 20.5], m), rng.sample(DIRS + ["Up", "a", "B", "b"], m)])
    if rng.random() < .15 and m > 1:      # close to normalised, yet not
        ws = [w * k for k in [rng.choice([26 / 25, 24 / 25, 51 / 50, 101 / 100])] for w in rng.choice([[.5, .25, .25], [.96, .02, .02], [.75, .25], [.5, .5]])]
        m = len(ws)
        vs = vs[:m] + ["w%d" % i for i in range(m - len(vs))] if isinstance(vs[0], str) else ["w%d" % i for i in range(m)]
    how = rng.choice(["sample", "counter", "fromcounter", "choose", "dict", "pairs", "nsample", "nsample", "flip", "dup"])
    if how != "flip" and rng.random() < .25:      # many outcomes, as over every cell of a board
        m = rng.choice([17, 20, 25, 32, 40])
        ws = [rng.choice([1, 1 / 32, 2])] * m
        vs = rng.choice([["v%02d" % i for i in range(m)], [(i // 8, i % 8) for i in range(m)], list(range(m))])
    n = 1500
    random.seed(rng.randrange(10 ** 9))
    ctr = util.Counter(dict(zip(vs, ws)))
    t = float(sum(ws))
    ps = ws
    if how == "dup":
        vs = [rng.choice(vs[:2]) for _ in vs]

    def f():
        if how in ("sample", "dup"):
            return [util.sample(list(ws), list(vs)) for _ in range(n)]
        if how == "counter":
            return [util.sample(ctr) for _ in range(n)]
        if how == "fromcounter":
            return [util.sampleFromCounter(ctr) for _ in range(n)]
        if how == "choose":
            return [util.chooseFromDistribution(ctr) for _ in range(n)]
        if how == "dict":
            return [util.chooseFromDistribution(dict(zip(vs, ws))) for _ in range(n)]
        if how == "pairs":
            pr = [(w / t, v) for w, v in zip(ws, vs)]
            pr[-1] = (pr[-1][0] + 1e-9, pr[-1][1])
            return [x for x in (util.chooseFromDistribution(pr) for _ in range(n))]
        if how == "nsample":
            k = rng.choice([1, 10, 50])
            return [x for _ in range(n // k) for x in util.nSample(list(ws), list(vs), k)]
        return ["v0" if util.flipCoin(p0) else "v1" for _ in range(n)]
    if how == "flip":
        p0 = rng.choice([0, .125, .5, .75, 1])
        vs, ps = ["v0", "v1"], [p0, 1 - p0]
    ok, x = case.call(f)
    K = {}
    for y in (x if ok else []):
        K[str(y)] = K.get(str(y), 0) + 1
    case.emit("freq", ok, how=how, ps=[frac(p) for p in ps], vs=[str(v) for v in vs], counts=sorted([k, v] for k, v in K.items()), n=sum(K.values()),
              err="" if ok else repr(x)[:100])


@driver("C33")
def c33(cx):
    for _ in range(cx.n(60, 800)):
        yield cx.run("draw", draw_case)
    for _ in range(cx.n(10, 100)):
        yield cx.run("vector", vector_case)


# ============================================================================= C42: directions, bodies, small helpers
class WalkRec:
    def __init__(self, case):
        self.case = case

    @staticmethod
    def see(c):
        x, y = c.getPosition()
        return dict(x=half(x), y=half(y), d=c.getDirection())

    E = dict(x=0, y=0, d="")

    def new(self, x, y, d):
        ok, c = self.case.call(lambda: game.Configuration((x, y), d))
        ok, o = self.case.call(lambda: self.see(c))
        r = self.case.new("w", c)
        self.case.emit("w_new", ok, r=r, x=half(x), y=half(y), d=d, res=o if ok else self.E)
        return r if ok else None

    def turn(self, how, a):
        D = game.Directions
        ok, x = self.case.call(lambda: game.Actions.reverseDirection(a) if how == "back" else
                               {"left": D.LEFT, "right": D.RIGHT, "reverse": D.REVERSE}[how][a])
        self.case.emit("w_turn", ok, how=how, a=a, res=x if ok else "")
        return x if ok else a

    def step(self, w, a, v):
        """v half cells along a"""
        c, A = self.case.obj[w], game.Actions

        def f():
            vec = A.directionToVector(a) if v == 2 and self.case.n % 2 else A.directionToVector(a, v / 2)
            t = c.generateSuccessor(vec)
            nx, ny = A.getSuccessor(c.getPosition(), a)
            return t, dict(res=self.see(t), whole=bool(t.isInteger()), was=self.see(c), vec=[half(k) for k in vec],
                           faces=A.vectorToDirection(vec), next=[half(nx), half(ny)])
        ok, x = self.case.call(f)
        r = self.case.new("w", x[0]) if ok else w
        self.case.emit("w_step", ok, w=w, r=r, a=a, v=v, **(x[1] if ok else dict(
            res=self.E, whole=False, was=self.E, vec=[0, 0], faces="", next=[0, 0])))
        return r

    def eq(self, w, o):
        a, b = self.case.obj[w], self.case.obj[o]
        ok, x = self.case.call(lambda: (bool(a == b), hash(a) == hash(b), bool(a == None)))     # noqa: E711
        self.case.emit("w_eq", ok, w=w, o=o, res=x[0] if ok else False, hash=x[1] if ok else False, none=x[2] if ok else True)


def plan_walk(cx, case, pl, start=None):
    R = WalkRec(case)
    x, y, d = start or (5, 5, "Stop")
    ws, h = [R.new(x, y, d)], "North"
    for k, v in pl:
        if k == "step":
            ws.append(R.step(ws[-1], h, v))
        else:
            h = R.turn("back" if k == "reverse" and cx.rng.random() < .5 else k, h)
    if None not in ws:
        for _ in range(3):
            R.eq(cx.rng.choice(ws), cx.rng.choice(ws))
        o = case.obj[ws[0]]
        w = R.new(*o.getPosition(), o.getDirection())
        R.eq(ws[0], w)
        R.eq(w, ws[-1])


def rand_walk(cx, case):
    rng = cx.rng
    pl = [rng.choice([("left", 0), ("right", 0), ("reverse", 0), ("step", 0), ("step", 1), ("step", 2), ("step", 2), ("step", 8)]) for _ in range(rng.randint(5, 30))]
    plan_walk(cx, case, pl, (rng.randint(-4, 40) / 2, rng.randint(-4, 40) / 2, rng.choice(DIRS)))
    R = WalkRec(case)
    for a in DIRS:
        for k in ("left", "right", "reverse", "back"):
            R.turn(k, a)


def helper_case(cx, case):
    rng = cx.rng
    for _ in range(6):      # what a body may do where it is
        w, h = rng.randint(3, 7), rng.randint(3, 7)
        g = game.Grid(w, h)
        for x in range(w):
            for y in range(h):
                g[x][y] = x in (0, w - 1) or y in (0, h - 1) or rng.random() < .4
        on = [[x, y] for x in range(w) for y in range(h) if g[x][y]]
        x, y, d = rng.randint(1, w - 2), rng.randint(1, h - 2), rng.choice(DIRS)
        if rng.random() < .4:
            if rng.random() < .5:
                x = min(x + .5, w - 1.5)
            else:
                y = min(y + .5, h - 1.5)
        jx, jy = (rng.choice([0, 0, 0, .0004]) for _ in "xy")
        ok, r = case.call(lambda: list(game.Actions.getPossibleActions(game.Configuration((x + jx, y + jy), d), g)))
        case.emit("possible", ok, walls=on, at=dict(x=half(x), y=half(y), d=d), res=r if ok else [])
    for _ in range(10):
        p, q = ([rng.randint(0, 80) for _ in "xy"] for _ in "pq")
        ok, r = case.call(lambda: util.nearestPoint((p[0] / 8, p[1] / 8)))
        case.emit("near", ok, at=p, res=[num(k) for k in r] if ok else [])
        p, q = ([rng.randint(-k, k) for _ in "xy"] for k in rng.choices([80, 80, 320, 2000], k=2))
        ok, r = case.call(lambda: num(8 * util.manhattanDistance((p[0] / 8, p[1] / 8), (q[0] / 8, q[1] / 8))))
        case.emit("dist", ok, p=p, q=q, res=r if ok else 0)
        k = rng.choice([0, 0, 1, -1, p[0]])
        ok, r = case.call(lambda: num(util.sign(k / 8)))
        case.emit("sign", ok, x=k, res=r if ok else 0)
    for _ in range(6):
        rows, cols = rng.randint(1, 5), rng.randint(1, 5)
        m = [[rng.choice("xyz") for _ in range(cols)] for _ in range(rows)]
        own = [list(r) for r in m]
        ok, r = case.call(lambda: [list(k) for k in util.arrayInvert(own)])
        case.emit("turned", ok, m=m, was=own, res=r if ok else [])
        k = rng.choice("xyzw")
        ok, r = case.call(lambda: [list(c) for c in util.matrixAsList(own, k)])
        case.emit("cellsof", ok, m=m, x=k, res=r if ok else [])
        b = [[c == "x" for c in r] for r in m]
        ok, r = case.call(lambda: [list(c) for c in util.matrixAsList(b)])
        case.emit("cellsof", ok, m=m, x="x", res=r if ok else [])


def body_case(cx, case):
    """the state of an agent and its copy"""
    rng = cx.rng

    def see(s):
        x, y = s.getPosition()
        sx, sy = s.start.getPosition()
        return dict(at=dict(x=half(x), y=half(y), d=s.getDirection()), home=dict(x=half(sx), y=half(sy), d=s.start.getDirection()),
                    t=num(s.scaredTimer), p=bool(s.isPacman), c=num(s.numCarrying), n=num(s.numReturned))

    def conf():
        return (rng.randint(0, 9) / 2, rng.randint(0, 9) / 2), rng.choice(DIRS)
    for _ in range(5):
        home, at, p = conf(), conf(), rng.random() < .5
        t, c, n = rng.choice([0, 0, 7, 40]), rng.randrange(3), rng.randrange(3)
        k, new = rng.choice(["at", "t", "c", "n", "none"]), conf()

        def f():
            s = game.AgentState(game.Configuration(*home), p)
            s.configuration, s.scaredTimer, s.numCarrying, s.numReturned = game.Configuration(*at), t, c, n
            q = s.copy()
            first = see(q)
            eq = [bool(s == q)]
            hs = hash(s) == hash(q)
            if k == "at":
                q.configuration = game.Configuration(*new)
            elif k == "t":
                q.scaredTimer = t + 1
            elif k == "c":
                q.numCarrying = c + 1
            elif k == "n":
                q.numReturned = n + 1
            return dict(copied=first, was=see(s), now=see(q), eq=eq + [bool(s == q)], hash=hs)

        def as_conf(c):
            return dict(x=half(c[0][0]), y=half(c[0][1]), d=c[1])
        given = dict(at=as_conf(at), home=as_conf(home), t=t, p=p, c=c, n=n)
        want = dict(given, **({"at": as_conf(new)} if k == "at" else {k: given[k] + 1} if k in given else {}))
        ok, x = case.call(f)
        case.emit("body", ok, given=given, want=want, **(x if ok else dict(copied=given, was=given, now=given, eq=[False, False], hash=False)))


@driver("C42")
def c42(cx):
    for pl in some(cx, cx.plans.get("MC_Compass", []), 1400, 20000):
        yield cx.run("walk", plan_walk, pl)
    for _ in range(cx.n(40, 600)):
        yield cx.run("rand", rand_walk)
    for _ in range(cx.n(40, 600)):
        yield cx.run("helpers", helper_case)
    for _ in range(cx.n(20, 300)):
        yield cx.run("body", body_case)


# ============================================================================= C43: limited calls, muted output
class Own(Exception):
    pass


def plan_limits(cx, case, pl):
    rng = cx.rng
    todo = [list(v) for v in pl]
    stray = []

    def strange(*a):
        stray.append(1)
    old = signal.signal(signal.SIGALRM, strange)
    outs, real = [io.StringIO(), io.StringIO()], sys.stdout
    sys.stdout = outs[0]
    case.emit("l_start")

    def left():
        return int(1000 * signal.getitimer(signal.ITIMER_REAL)[0])

    def body(*a, **kw):
        """runs the plan up to the end of this call"""
        while todo:
            v = todo.pop(0)
            if v[0] == "enter":
                limited(v[1])
            elif v[0] == "exit":
                yield v[1]
                return
        yield "value"

    def limited(n):
        args, kw = [rng.randrange(9) for _ in range(rng.randrange(3))], {k: rng.randrange(9) for k in rng.sample(["a", "timeout", "function", "key"], rng.randrange(3))}
        did, value, own = [], object(), rng.choice([Own, KeyError, ValueError, AssertionError])("own")
        handler = signal.getsignal(signal.SIGALRM)

        def function(*a, **k):
            case.emit("l_enter", n=n, left=left(), same=list(a) == args and k == kw)
            out = next(body())
            did.append(out)
            if out == "raise":
                raise own
            if out == "expired":
                signal.raise_signal(signal.SIGALRM)
                for _ in range(1000):       # the exception comes at the next chance
                    pass
            return value
        try:
            got = util.TimeoutFunction(function, n)(*args, **kw)
            out, same = "value", got is value
        except util.TimeoutFunctionException as x:
            out, same = "expired", True
        except Exception as x:
            out, same = "raise", x is own
        case.emit("l_exit", out=out, did=did[0] if did else "-", same=same, handler=signal.getsignal(signal.SIGALRM) is handler
                  or signal.getsignal(signal.SIGALRM) == handler, left=left())

    try:
        ok = True
        k = 0
        while todo:
            v = todo.pop(0)
            if v[0] == "enter":
                limited(v[1])
                continue
            if v[0] == "redirect":
                sys.stdout = outs[v[1]]
                case.emit("m_set", True, k="redirect", o=v[1])
            elif v[0] in ("mute", "unmute"):
                ok, _ = case.call(util.mutePrint if v[0] == "mute" else util.unmutePrint)
                case.emit("m_set", ok, k=v[0], o=0)
            k += 1
            for o in outs:
                o.seek(0)
                o.truncate()
            ok, _ = case.call(lambda: (print("word", k), sys.stdout.write("x")))
            case.emit("m_print", ok, heard=[j for j in (0, 1) if outs[j].getvalue() == "word %d\nx" % k]
                      + [9 for j in (0, 1) if outs[j].getvalue() not in ("", "word %d\nx" % k)])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            util.unmutePrint()
        finally:
            sys.stdout = real


def plain_limit(cx, case):
    """a system without alarms, where the time is looked at afterwards"""
    rng = cx.rng
    keep = signal.SIGALRM
    case.emit("l_start")
    for _ in range(6):
        n, took, did = rng.choice([1, 5, 30]), rng.choice([0, 1, 4, 5, 6, 30, 31]), rng.choice(["value", "value", "raise"])
        value, own = object(), Own("own")

        def function(a, b=0):
            Clock.now += took
            if did == "raise":
                raise own
            return value if (a, b) == (1, 2) else None
        del signal.SIGALRM
        Clock.on = True
        try:
            got = util.TimeoutFunction(function, n)(1, b=2)
            out, same = "value", got is value
        except util.TimeoutFunctionException:
            out, same = "expired", True
        except Exception as x:
            out, same = "raise", x is own
        finally:
            Clock.on = False
            signal.SIGALRM = keep
        case.emit("l_plain", n=n, took=took, did=did, out=out, same=same)


@driver("C43")
def c43(cx):
    for pl in some(cx, cx.plans.get("MC_Limits", []), 2500, 30000):
        yield cx.run("plan", plan_limits, pl)
    for _ in range(cx.n(10, 60)):
        yield cx.run("plain", plain_limit)


class Ctx:
    def __init__(self, prop, seed, shard, nshards, tier, plan):
        self.prop, self.seed, self.shard, self.nshards, self.tier = prop, seed, shard, nshards, tier
        self.plans = {}
        for x in plan:
            self.plans.setdefault(x["m"], []).append(x["v"])
        self.rng = random.Random("%s/%d/%d" % (prop, seed, shard))
        self.k = 0

    def run(self, label, f, *args, **kw):
        self.k += 1
        case = Case("%s-%d.%d-%s" % (self.prop, self.shard, self.k, label))
        try:
            f(self, case, *args, **kw)
        except Exception as x:
            case.emit("crash", False, what=repr(x)[:200], where=traceback.format_exc()[-600:])
        return case

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough


def main():
    prop, seed, shard, nshards, tier, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
    plan = []
    if len(sys.argv) > 7:
        with open(sys.argv[7]) as h:
            plan = [json.loads(x) for x in h]
    cx = Ctx(prop, seed, shard, nshards, tier, plan)
    with open(out, "w") as h:
        for c in D[prop](cx):
            h.write(json.dumps(c.dump()) + "\n")
            h.flush()
            if HANGS > 2:       # the rest of the run is left out
                break
        h.write('{"end": true}\n')


if __name__ == "__main__":
    main()
