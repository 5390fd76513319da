import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import report
pid = sys.argv[1]
replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
mod = importlib.import_module(pid.lower())
ctx = report.Ctx(pid, replay, getattr(mod, "LEVEL", "model_checking"))
try:
    mod.run(ctx)
except Exception:
    # The machinery failed: no answer, unless there is one already.
    traceback.print_exc()
    if not ctx.n_viol:
        sys.exit(3)
sys.exit(ctx.finish())
