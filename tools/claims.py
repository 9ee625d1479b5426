# further claims: T[id] = (technique, level_note); NA[id] = reason
NA = {}
T["C11"] = (EXP.format("the documented naming rules"), EXP_NOTE)
T["C12"] = (EXP.format("the documented visibility resolution"), EXP_NOTE)
T["C15"] = (EXP.format("the multiset and order of marked attributes on each generated item"), EXP_NOTE)
T["C16"] = ("property-based testing and fuzzing: generated valid, spoilt and random derive inputs expanded in process; accept/reject oracle, no panic, determinism", EXP_NOTE)
COMP = "property-based testing: generated modules compiled with the real derive, {}; and the same inputs expanded in process"
COMP_NOTE = "Random search over derive inputs; the compiler's own diagnostics are the observation. Trusts rustc 1.88's lints and spans."
T["C22"] = (COMP.format("diagnostics compared with those of the module without the derive"), COMP_NOTE)
T["C23"] = (COMP.format("offending options marked and the places of the errors compared with the marks"), COMP_NOTE)
T["C19"] = ("property-based testing: metamorphic relations between the in-process expansions of respelt derive inputs", EXP_NOTE)
