"""Lines of the library executed by the checks' runs (development aid). usage: cov.py RUNS [PID...]"""
import ast, importlib, os, sys
sys.path.insert(0, "/verif")
from dst import core, runner
core.setup_paths()
n = int(sys.argv[1])
pids = sys.argv[2:] or ["C03","C05","C08","C09","C10","C11","C13","C14","C15","C16","C17","C18"]
mon = sys.monitoring
TOOL = 3
hit = {}
def online(code, line):
    if code.co_filename.startswith(core.LIBDIR):
        hit.setdefault(os.path.relpath(code.co_filename, core.LIBDIR), set()).add(line)
    return mon.DISABLE
total = {}
for pid in pids:
    r, w = os.pipe()
    p = os.fork()
    if not p:
        os.close(r)
        prop = importlib.import_module(f"dst.props.{pid.lower()}")
        mon.use_tool_id(TOOL, "cov")
        mon.register_callback(TOOL, mon.events.LINE, online)
        mon.set_events(TOOL, mon.events.LINE)
        if hasattr(prop, "setup"): prop.setup()
        for i in range(n):
            plan = runner.make_plan(prop, pid, runner.seed_for(pid, 1, i), "quick")
            if plan is not None:
                core.run_plan(prop, plan)
        os.write(w, repr({k: sorted(v) for k, v in hit.items()}).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while b := os.read(r, 65536):
        data += b
    os.waitpid(p, 0)
    for k, v in (ast.literal_eval(data.decode()) if data else {}).items():
        total.setdefault(k, {})
        for l in v:
            total[k].setdefault(l, set()).add(pid)
def code_lines(c):
    out = {l for _, _, l in c.co_lines() if l}
    for k in c.co_consts:
        if hasattr(k, "co_lines"): out |= code_lines(k)
    return out
for root, _, fs in os.walk(core.LIBDIR):
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(root, f); rel = os.path.relpath(p, core.LIBDIR)
            src = open(p).read(); lines = src.split("\n")
            todo = sorted(code_lines(compile(src, p, "exec")) - set(total.get(rel, {})))
            todo = [l for l in todo if l <= len(lines) and not lines[l-1].strip().startswith(("import", "from", "class ", "def ", "@", '"""'))]
            print("==", rel, len(todo))
            for l in todo: print("   ", l, lines[l-1])
