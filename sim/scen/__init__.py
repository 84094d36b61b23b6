def load(prop):
    if prop in ("C14", "C15", "C19"):
        # before whenever is imported
        from .. import simlock

        simlock.install()
    from . import machines  # noqa
    from .base import REGISTRY

    for m in ("faults", "durable", "clock", "threads", "interrupts", "isolation"):
        try:
            __import__(f"sim.scen.{m}")
        except ModuleNotFoundError as e:
            if e.name != f"sim.scen.{m}":
                raise
    return REGISTRY[prop]
