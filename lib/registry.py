"""What each check runs: models, driver, trace specification and the operations that decide the property."""
R = "drv_relnet.py"
CHECKS = {}


def check(id, driver, trace, models=(), focus=None, **kw):
    CHECKS[id] = dict(driver=driver, trace=trace, models=list(models), focus=focus if isinstance(focus, dict) else set(focus) if focus else None, **kw)


def M(module, cfg, tier="quick", **kw):
    return dict(module=module, cfg=cfg, tier=tier, **kw)


BUILD = ["make", "sb_new", "sb_from", "sb_copy", "add_relation", "build_from_edges", "is_connected", "build", "build_single",
         "build_empty", "observe", "join"]
check("C10", R, "SystemTrace", [dict(module="MC_Builder", cfg="MC_BuilderAdd")], BUILD)
check("C11", R, "SystemTrace", [dict(module="MC_Builder", cfg="MC_BuilderJoin")], ["join", "can_join", "build", "observe"])

OBS = ["observe", "load", "make", "rgb_build", "ssb_build"]
check("C01", R, "SystemTrace", [M("MC_Inference", "MC_Inference"), M("MC_Inference", "MC_Inference4", "thorough")], ["cond", "cg_rg", "make_joined", "marg", "posterior", "find", "load", "observe"])
check("C02", R, "SystemTrace", [M("MC_Joint", "MC_JointChain"), M("MC_Joint", "MC_JointCycle")], ["make_joined", "load", "observe", "is_joined", "is_fact"])
check("C03", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["joined_on", "load", "observe"])
check("C04", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["cond", "cg_rg", "rg_builder", "observe"])
check("C05", R, "SystemTrace", [M("MC_Enum", "MC_Enum")], ["rgb_gen", "rgb_build", "ss_info"])
check("C06", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["is_fact", "factors", "is_joined", "observe"])
check("C07", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["probs", "prob_of", "count_of", "marg", "scales", "observe"])
check("C08", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["fold", "fold_eq", "observe"])
check("C09", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["act", "observe"])
check("C12", R, "SystemTrace", [M("MC_Vocab", "MC_Vocab"), M("MC_Vocab", "MC_Vocab4", "thorough")], ["provider", "get_node", "get_edge", "shared", "observe", "make"])
check("C13", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["eq", "view", "no_copy", "neq_other", "build_from_edges", "build_single", "observe", "make"])
check("C14", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["content", "sub", "sim", "single_var", "observe"])
check("C15", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["neigh", "belt", "ext", "observe"])
check("C16", R, "SystemTrace", [M("MC_Pairs", "MC_Pairs")], ["transform", "project", "epvars", "view", "observe"])
SETS = ["ssb_new", "ssb_add", "ssb_addall", "ssb_remove", "ssb_removeall", "ssb_copy", "ssb_build", "ss_builder", "ssb_empty", "ss_info",
        "union", "filter", "joinlist", "ss_eq", "count_of", "load", "fromdict"]
check("C17", R, "SystemTrace", [M("MC_Sets", "MC_Sets"), M("MC_Sets", "MC_Sets5", "thorough")], SETS)
check("C18", R, "SystemTrace", [M("MC_Rgb", "MC_Rgb"), M("MC_Sets", "MC_Sets"), M("MC_Sets", "MC_Sets5", "thorough")], SETS + ["observe", "rgb_build", "rg_builder", "rgb_add", "cg_rg", "cond", "content", "neigh", "epvars", "probs", "group", "incl", "marg", "views", "find", "describe", "fold"])
check("C19", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["group", "allmatch", "canjoin", "joined_sample", "observe"])
check("C20", R, "SystemTrace", [M("MC_Rgb", "MC_Rgb"), M("MC_Rgb", "MC_Rgb5", "thorough")], ["rgb_new", "rgb_add", "rgb_addmany", "rgb_build_sample", "rgb_build", "rgb_id", "many_ids", "rgb_gen", "rg_builder", "ss_info", "observe"])
check("C21", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["find", "incl", "describe", "views", "ss_have", "ss_info", "observe"])


def merge_same(cases):
    """one more history per program: all its results, observed by every process"""
    groups = {}
    for c in cases:
        groups.setdefault(c["id"].split("-")[-1], []).append(c)
    for k, cs in sorted(groups.items()):
        ev = [e for c in cs for e in c["ev"] if e["op"] == "same"]
        cases = cases + [dict(id="merged-" + k, tab=[], ev=ev, meta={})]
    return cases


check("C22", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], None, merge=merge_same)
check("C23", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["text", "listing", "listing_names", "part_text", "draw_sample", "draw_outcomes", "draw_fold", "draw_act"])

check("C37", R, "SystemTrace", [M("MC_Bags", "MC_Bags"), M("MC_Bags", "MC_Bags4", "thorough")], ["twins", "neq_other"])
check("C39", R, "SystemTrace", [M("MC_Inference", "MC_Separation"), M("MC_Inference", "MC_Inference4", "thorough")], ["indep", "cond", "cg_rg", "make_joined", "load", "observe"])
check("C40", "drv_clients.py", "SystemTrace", [M("MC_Clients", "MC_Clients"), M("MC_Clients", "MC_Clients3", "thorough")], None)
check("C38", R, "SystemTrace", [M("MC_Names", "MC_NamesS"), M("MC_Names", "MC_NamesG4"), M("MC_Names", "MC_NamesS5", "thorough")], ["named", "twins"])

# ------------------------------------------------------------------ the demo application
DM, DT = "drv_demo.py", "DemoTrace"
PAC = [M("MC_Pacman", "MC_Pacman"), M("MC_Pacman", "MC_PacmanPlay", workers=4), M("MC_Pacman", "MC_Pacman4", "thorough")]
MOVE = {"position", "direction", "agents", "listing", "rejected-but-allowed", "accepted-but-forbidden"}
TALLY = {"score", "food", "capsules", "win", "lose", "home", "listing", "rejected-but-allowed", "accepted-but-forbidden"}
SCARE = {"timer", "capsules", "position", "home", "rejected-but-allowed"}
check("C24", DM, DT, PAC, {"start": MOVE, "succ": MOVE, "succn": MOVE, "pose": MOVE, "legal": None, "neighbors": None, "ghost_at": None, "cells": {"hasWall", "agents", "pacman", "ghosts", "rejected-but-allowed"}})
check("C25", DM, DT, PAC, {"start": TALLY, "pose": TALLY, "succ": TALLY, "succn": TALLY, "cells": {"hasFood", "rejected-but-allowed"}})
check("C26", DM, DT, PAC, {"start": SCARE, "pose": SCARE, "succ": SCARE, "succn": SCARE})
check("C27", DM, DT, PAC, {"look": None, "again": None, "deepcopy": None, "state_eq": None, "edit": None, "explored": None, "succ": {"rejected-but-allowed"}})
check("C28", DM, DT, [M("MC_GameLoop", "MC_GameLoop"), M("MC_Budget", "MC_Budget"), M("MC_GameLoop", "MC_GameLoop3", "thorough"),
                       M("MC_Budget", "MC_Budget5", "thorough")],
      {"g_cb": None, "g_end": None, "agents": None, "summary": None, "limits": None, "left": None, "process": None, "again": None, "succn": {"rejected-but-allowed"}, "succ": {"rejected-but-allowed", "accepted-but-forbidden"}})
check("C29", DM, DT, [M("MC_Containers", "MC_Containers"), M("MC_Containers", "MC_Containers6", "thorough")], ["box", "push", "pop", "update"])
check("C30", DM, DT, [M("MC_Counters", "MC_Counters"), M("MC_Counters", "MC_Counters3", "thorough")], None)
check("C31", DM, DT, [M("MC_Grids", "MC_Grids"), M("MC_Grids", "MC_Grids3", "thorough")], None)
check("C32", DM, DT, PAC, ["uniform", "toward", "choose", "keys"])
check("C33", DM, DT, [M("MC_Counters", "MC_Counters")], ["freq", "vnorm", "prob", "fixed"])
check("C42", DM, DT, [M("MC_Compass", "MC_Compass"), M("MC_Compass", "MC_Compass6", "thorough")],
      ["w_new", "w_turn", "w_step", "w_eq", "possible", "body", "near", "dist", "sign", "turned", "cellsof"])
check("C43", DM, DT, [M("MC_Limits", "MC_Limits"), M("MC_Limits", "MC_Limits8", "thorough")], ["l_enter", "l_exit", "l_plain", "m_set", "m_print"])

SC = "drv_screen.py"
check("C34", SC, DT, [M("MC_Screen", "MC_Screen"), M("MC_Pacman", "MC_PacmanPlay", workers=4)], ["d_open", "d_move", "d_close", "d_cells", "d_belief"])


def merge_runs(cases):
    """one more history: the seeded commands of all processes"""
    ev, runs = [], []
    for c in cases:
        ev += [e for e in c["ev"] if e["op"] == "cmd" and any(o[0] == "seed" for o in e["opts"])][:10]
        if c["id"].endswith("-everywhere"):
            runs += [e for e in c["ev"] if e["op"] == "runs"]
    ev += [dict(op="runs", ok=x["ok"] and y["ok"], argv=x["argv"], a=x["a"], b=y["a"]) for x, y in zip(runs, runs[1:])]
    return cases + [dict(id="merged-runs", tab=[], ev=ev, meta={})]


check("C35", SC, DT, [M("MC_Keys", "MC_Keys"), M("MC_Keys", "MC_Keys5", "thorough")], ["k_open", "k_pressed", "k_fresh", "k_wait", "k_choose", "k_click"])
check("C36", SC, DT, [M("MC_Commands", "MC_Commands"), M("MC_Commands", "MC_Commands3", "thorough")], ["cmd", "runs"], merge=merge_runs)
check("C41", SC, DT, [M("MC_Canvas", "MC_Canvas"), M("MC_Canvas", "MC_Canvas4", "thorough")], None)
