#!/usr/bin/env python3
"""development aid: list the rejected traces of a check, grouped by the kind of event"""
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import vlib, registry
class Dbg(vlib.Check):
    def finish(self):
        g = {}
        for v in self.viol:
            evs = v["trace"]["ev"]; at = v["at"]
            e = evs[at-1] if at <= len(evs) else {"e": "END"}
            g.setdefault((v["module"], e["e"], e.get("op", "")), []).append(v)
        for k, vs in sorted(g.items()): print(k, len(vs))
        n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
        for k, vs in sorted(g.items()):
            for v in sorted(vs, key=lambda v: len(v["trace"]["ev"]))[:n]:
                print("=====", k, "at", v["at"], {a: b for a, b in v["trace"].items() if a not in ("ev",)})
                print("  scen:", "; ".join(vlib.render(o) for o in v["scenario"]["ops"])[:int(os.environ.get("SCEN","1500"))])
                for i, e in enumerate(v["trace"]["ev"][max(0, v["at"]-12):v["at"]+1]): print("   ", "->" if i + max(0, v["at"]-12) + 1 == v["at"] else "  ", json.dumps(e)[:420])
        
        for m, i, t in vlib.EVALERR[:3]: print("EVALERR", m, i, t[:700])
        print("scenarios", self.nsc, "ok", self.validated, "states", self.states)
        return 0
registry.CHECKS[sys.argv[1]](Dbg(sys.argv[1]))
