"""tools/dbg.py <suite function of rvc.props> [unit substrings]: run units one by one and print what happened"""
import sys, time, os; sys.path.insert(0, "/verif")
from rvc import props
from rvc.exec import strip_crate
class Ctx:
    tier = "quick"; solver_s = 0; calls = 0
    def __init__(s): s.notes = []
def main(mk, sel, skip_internal=True):
    s = getattr(props, mk)(Ctx()) if isinstance(mk, str) else mk(Ctx())
    if os.environ.get("HELPERS"):
        for u in s.units:
            if u.internal: s.run_unit(u); (s.good(u) or s.dropped.setdefault(strip_crate(u.helper), u))
    for u in s.units:
        if sel and not any(x in u.name for x in sel): continue
        s.run_unit(u, deadline=float(os.environ.get("DL", "120")))
        bad = [o for o in u.obls if not o.ok]
        print("%s %-40s %5d obl %4.1fs %s" % ("OK " if s.good(u) else "BAD", u.name, len(u.obls), u.secs, u.err or ""), [(o.kind, o.fn[-40:], o.line, o.msg, str(o.how)[:80]) for o in bad[:3]] if bad else "", flush=True)
    return s
if __name__ == "__main__": main(sys.argv[1], sys.argv[2:])
