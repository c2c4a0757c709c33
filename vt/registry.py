from .checks_ops import operators
from .checks_prims import blocks
from . import models as m
from .machine import histories
CHECKS = {p: [operators] for p in ("C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10")}
CHECKS.update({p: [blocks] for p in ("C11", "C12", "C13", "C19")})
CHECKS["C02"].insert(0, m.promotion)
CHECKS["C06"].insert(0, m.promotion)
CHECKS["C11"] = [m.zint_model, m.checked] + CHECKS["C11"]
CHECKS["C12"].insert(0, m.extint)
CHECKS["C13"].insert(0, m.interval)
for p in ("C03", "C04"): CHECKS[p] = [m.machine, histories, operators]
for p in ("C01", "C02", "C07", "C08", "C09", "C10"): CHECKS[p].append(histories)
from . import streams as s
CHECKS["C17"] = [s.toy, s.streams, histories]
from . import dispatch as d
CHECKS["C14"] = [d.dispatch]
from . import trap as tr
CHECKS["C15"] = [m.trap, tr.trap]
from . import constant as k
CHECKS["C16"] = [k.constants]
from . import facts as fa
CHECKS["C18"] = [fa.literals]
CHECKS["C20"] = [fa.traits]
