"""C30 on the behaviours of the other specifications: same bits in every order and on every thread, nothing printed."""
import run
NO_RERUN = True
def TRANSFORM(events, main):
    return [dict(op=e["op"], a=e["a"], e=[0], t=[0]) for e in events]
class REPLAYER(run.Replay):
    def run(self, lines, tag):
        res, rc, err, hang = super().run(lines, tag)
        if rc == 0 and (err or self.out):
            return res[:-1], 0, "the library printed: " + (self.out + err)[:200], False
        return res, rc, err, hang
def COUNT(ev, res): return 6
