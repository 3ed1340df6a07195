"""Sweeps: drop bookkeeping steps; the event count is the number of floats swept."""
import run
def TRANSFORM(events, main):
    if not events or events[-1]["op"] != "done": raise run.CheckError("sweep specification did not finish")
    return [e for e in events if e["op"] == "sweep"]
def COUNT(ev, res): return int(res[7])
TIMEOUT = 300
