"""Property id -> (module, autodiff backends that must be importable)."""

CHECKS = {}
for _p in range(1, 19):
    CHECKS[f"M{_p:02d}"] = ("check_manifolds", ())
CHECKS["M19"] = ("check_symmetry", ())
CHECKS["M20"] = ("check_manifolds", ())
for _p in range(1, 13):
    CHECKS[f"O{_p:02d}"] = ("check_optimizers", ())
for _p in (1, 2, 3, 4, 6):
    CHECKS[f"A{_p:02d}"] = ("check_autodiff", ())
CHECKS["A05"] = ("check_tools", ())
for _p in range(1, 5):
    CHECKS[f"T{_p:02d}"] = ("check_tools", ())
