import props_sched, props_io, props_prog
CHECKS = {c.id: c for m in (props_sched, props_io, props_prog) for c in vars(m).values() if isinstance(c, type) and getattr(c, "id", None)}
