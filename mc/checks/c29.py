"""C29: pipeline functions get their parameters and carry their description: every small stack of the two decorators, every call of each."""
import itertools

NEEDS_PLAIN = True
PROPERTY = "C29"

BOUNDS = {"quick": "every stack of 0 to 4 decorators out of pipeline (2 settings) and parameter (2 names x 2 defaults, one of them absent); every subset of the keyword arguments with 3 values; calls in sequence; a second function built in between",
          "thorough": "as quick with stacks of up to 5 decorators"}
ASSUMPTIONS = ["the decorators are applied to a function that isn't decorated a second time elsewhere (both results share one table of parameters)",
               "parameters are given by keyword, the data by position (as pipeline runners do)"]

PIPES = [dict(name="P", description="first", input="frame", output="image", aggregation="max"),
         dict(name="Q", output="frame"),
         dict()]
PARS = [dict(name="a", type="int", default=3),
        dict(name="a", label="other", default=[1]),
        dict(name="b"),
        dict(name="b", type="float", label="B", description="the b", default=0)]
SYMBOLS = [("pipe", i) for i in range(len(PIPES))] + [("par", i) for i in range(len(PARS))]
VALUES = [None, 0, "given"]

def cases(tier):
    depth = 5 if tier == "thorough" else 4
    out = []
    for n in range(depth + 1):
        for s in itertools.product(range(len(SYMBOLS)), repeat=n):
            out.append(["stack", list(s)])
    # building one function while another is being built: every interleaving of two stacks of parameters
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)):
        for s in itertools.product(range(len(PARS)), repeat=n):
            for t in itertools.product(range(len(PARS)), repeat=m):
                if len(set(s) & set(t)) or n + m < 5:
                    out.append(["two", list(s), list(t)])
    return out

def make(log):
    def work(*args, **kwargs):
        "What it does"
        log.append((args, dict(kwargs)))
        return ("result", len(log))
    work.mark = "kept"
    return work

class Model:
    """What the decorators promise: the table of parameters in order of application, the defaults, the settings of the last pipeline()."""
    def __init__(self):
        self.table, self.settings = {}, None

    def apply(self, sym):
        kind, i = sym
        if kind == "pipe":
            d = PIPES[i]
            self.settings = (d.get("name"), d.get("description"), d.get("input", "frame"), d.get("output", "image"), d.get("aggregation", "sum"))
        else:
            d = PARS[i]
            self.table[d["name"]] = dict(type=d.get("type", "string"), label=d.get("label"), description=d.get("description"), default=d.get("default"))

def decorate(f, sym):
    from stempy.pipeline import pipeline, parameter
    kind, i = sym
    return pipeline(**PIPES[i])(f) if kind == "pipe" else parameter(**PARS[i])(f)

def look(f, m, what):
    if (f.__name__, f.__doc__, f.mark) != ("work", "What it does", "kept"):
        return f"{what}: the name, text or attributes of the function are lost: {f.__name__!r} {f.__doc__!r}"
    table = getattr(f, "PARAMETERS", None)
    if table is None:
        return f"{what}: no PARAMETERS"
    if list(table.items()) != list(m.table.items()):
        return f"{what}: PARAMETERS are {dict(table)}, applied were {m.table}"
    if m.settings is not None:
        got = tuple(getattr(f, k, "missing") for k in ("NAME", "DESCRIPTION", "INPUT", "OUTPUT", "AGGREGATION"))
        if got != m.settings:
            return f"{what}: described by {got} instead of {m.settings}"
    return None

def calls(f, m, log, what, ctx):
    names = ["a", "b", "extra"]
    for rnd in range(2):            # a call must not change what the next one gets
        for args in ((), ("frames",), ("frames", 7)):
            for given in itertools.product([False] + VALUES, repeat=2):
                for extra in (False, "e"):
                    kw = {n: v for n, v in zip(names, given + (extra,)) if v is not False}
                    want = {n: p["default"] for n, p in m.table.items()}
                    want.update(kw)
                    before, mine = len(log), dict(kw)
                    try:
                        r = f(*args, **mine)
                    except Exception as e:
                        return f"{what}, call {args} {kw}: raised {type(e).__name__}: {e}"
                    ctx.step((what, args, tuple(kw.items()), rnd))
                    if len(log) != before + 1 or r != ("result", len(log)):
                        return f"{what}, call {args} {kw}: ran {len(log) - before} times and returned {r}"
                    if mine != kw:
                        return f"{what}, call {args} {kw}: changed the arguments to {mine}"
                    if log[-1] != (args, want):
                        return f"{what}, call {args} {kw}: the function got {log[-1]} instead of {(args, want)}"
    return None

def run_case(case, ctx):
    if case[0] == "stack":
        stack = [SYMBOLS[i] for i in case[1]]
        log, m = [], Model()
        f = make(log)
        for sym in stack:
            f = decorate(f, sym)
            m.apply(sym)
        what = f"decorators {[PIPES[i] if k == 'pipe' else PARS[i] for k, i in stack]}"
        return (look(f, m, what) if stack else None) or calls(f, m, log, what, ctx) or (look(f, m, what + " after calls") if stack else None)
    s, t = [("par", i) for i in case[1]], [("par", i) for i in case[2]]
    for order in set(itertools.permutations([0] * len(s) + [1] * len(t))):
        logs, ms, left = ([], []), (Model(), Model()), [list(s), list(t)]
        fs = [make(logs[0]), make(logs[1])]
        for who in order:
            sym = left[who].pop(0)
            fs[who] = decorate(fs[who], sym)
            ms[who].apply(sym)
        for who in (0, 1):
            what = f"two functions built in the order {order}, {[PARS[i] for k, i in (s, t)[who]]}"
            msg = look(fs[who], ms[who], what) or calls(fs[who], ms[who], logs[who], what, ctx)
            if msg:
                return msg
    return None
