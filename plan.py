# How each property's check is built and run.
PLAN = {}
for i in range(1, 8): PLAN["E%02d" % i] = dict(parts="props_e")
for i in range(8, 14): PLAN["E%02d" % i] = dict(parts="props_e2")
for i in range(1, 9): PLAN["F%02d" % i] = dict(parts="props_f", dual=True)
for i in range(1, 9): PLAN["G%02d" % i] = dict(parts="props_g")
for i in range(1, 3): PLAN["R%02d" % i] = dict(parts="props_r")
for i in range(1, 4): PLAN["X%02d" % i] = dict(parts="props_x")
PLAN["E14"] = dict(parts="props_t", variant="count")
for i in range(1, 10): PLAN["L%02d" % i] = dict(parts="props_l", app=True)
for i in range(1, 6): PLAN["T%02d" % i] = dict(py=True, technique="property-based testing with hypothesis: stateful and structured generators, independent oracle (networkx), shrinking")
NOTES = {"": "Randomised search: every generated case is decided by an independent oracle under ASan/UBSan; nothing is claimed about inputs not generated. Trusts the oracles and generators of the harness and clang's sanitizers."}
for i in range(1, 6): NOTES["T%02d" % i] = "Randomised search over the Python tools of TestSupport/planaritytesting together with the planarity executable built from the tree; nothing is claimed about inputs not generated. Trusts networkx, hypothesis and the oracles in pyharness/props.py."
