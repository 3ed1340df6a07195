"""Data tables: drop the final bookkeeping step."""
def TRANSFORM(events, main): return [e for e in events if e["op"] != "done"]
