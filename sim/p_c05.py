"""C05: Feasibility driver protocol."""
from . import drv

ID = "C05"
QUICK, THOROUGH = 80000, 1500000
RULE = ("One evaluation = one Feasibility solve between a scripted oracle and a scripted (60 %) or real (40 %) search space; the plan decides every "
        "reply, verdict, half-width, buffer reuse, nested solve and one failure at any call; the recorded history and the result are compared "
        "with a reference model of the protocol.")
REAL = ["cutting_plane driver", "Ell / EllStable in 40 % of the runs", "Options", "CutStatus"]
STUB = ["oracle (scripted)", "search space in 60 % of the runs (scripted verdicts, half-widths, moves; in-place, rebinding or copying centre)"]
ASSUMPTIONS = ["up to 19 rounds per solve, one injected failure per run", "the number of xc()/tsq() reads per round is not constrained"]
LISTS = [["rounds"]]
simplify = drv.simplify


def generate(rng):
    return drv.gen(rng, "feas")


def execute(plan, ctx):
    drv.execute(plan, ctx, "feas")
