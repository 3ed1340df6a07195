"""C32: sweeps (as mod_sweep, other columns)."""
import run
def TRANSFORM(events, main):
    if not events or events[-1]["op"] != "done": raise run.CheckError("sweep specification did not finish")
    return [x for x in events if x["op"] == "sqrt_sweep"]
def COUNT(ev, res): return int(res[3])
TIMEOUT = 200
