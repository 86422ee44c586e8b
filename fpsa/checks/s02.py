"""Files of a simulation run: which files are opened, how, and which rows are written, evaluated in every situation
(new or existing file, file name given or not, first or other process), with the simulation itself replaced by an uninterpreted count."""
from ..noisekit import *

RULE = ("in every situation the first process writes exactly one data row to the requested (or the default) file, opened so that existing content survives, preceded by a "
        "header row exactly when the file is new; header and row have the same length and each labelled value is the one of the run; other processes touch no file; "
        "the simulation runs on the code and noise built from the arguments")
ASSUMPTIONS = ["csv.writer quotes values where necessary", "opening with mode x fails exactly when the file exists"]
FN = "flamingpy/simulations.py:run_ec_simulation[%s]"
ERR = S("errors")
CC, NC, DEC_, WO, FNAME, TR = S("codecls"), S("noisecls"), S("decoder"), S("weight_opts"), S("fname"), S("trials", "int")
A1, A2, A3, A4 = S("dist"), S("bound"), S("delta"), S("pswap")


def run(ctx):
    for mpi in (False, True):
        ctx.scenario("run_ec_simulation(%s)" % ("MPI" if mpi else "no MPI"), scenario, ctx, mpi)


def has(t, s):
    return contains(t, lambda x: x is s)


def ext(t, suffix):
    return contains(t, lambda x: x.op == "ext" and isinstance(x.a[0], str) and x.a[0].endswith(suffix))


def truth(t, w):
    """Truth value of a guard in the situation w = {exists, named, rank}."""
    if isc(t):
        return bool(t.a[0])
    if t.op == "not":
        return not truth(t.a[0], w)
    if t.op == "and":
        return all(truth(x, w) for x in t.a)
    if t.op == "or":
        return any(truth(x, w) for x in t.a)
    if t.op == "ite":
        return truth(t.a[1], w) if truth(t.a[0], w) else truth(t.a[2], w)
    if t.op == "truth":
        x = t.a[0]
        return w["named"] if x is FNAME else number(x, w) != 0
    if t.op == "exc":
        kind = str(t.a[-1])
        if "FileExistsError" in kind or "OSError" in kind or "IOError" in kind:
            return w["exists"]
        if "FileNotFoundError" in kind:
            return not w["exists"]
    if t.op == "eq":
        a, b = t.a
        if NONE in (a, b) and FNAME in (a, b):
            return not w["named"]
        return number(a, w) == number(b, w)
    if t.op in ("lt", "le"):
        a, b = number(t.a[0], w), number(t.a[1], w)
        return a < b if t.op == "lt" else a <= b
    if t.op in ("call", "mcall") and (ext(t, "os.path.exists") or ext(t, "os.path.isfile") or t.op == "mcall" and t.a[0] in ("exists", "is_file")):
        return w["exists"]
    raise Unsup("condition " + t.op)


def number(t, w):
    if isc(t) and isinstance(t.a[0], (int, float)):
        return t.a[0]
    if t.op in ("call", "mcall") and ext(t, "Get_rank") or t.op == "mcall" and t.a[0] == "Get_rank":
        return w["rank"]
    if t.op in ("call", "mcall") and ext(t, "Get_size") or t.op == "mcall" and t.a[0] == "Get_size":
        return 3
    raise Unsup("value " + t.op)


def pick(t, w):
    while t.op == "ite":
        t = t.a[1] if truth(t.a[0], w) else t.a[2]
    return t


def holds(gs, w):
    return all(truth(g, w) for g in gs)


def flat(rows, w):
    """Elements of a snapshot list in the situation w."""
    if not isinstance(rows, list):
        raise Unsup("row")
    out = []
    for s, v in rows:
        if s is not None:
            if s.kind != "elem" or s.loops:
                raise Unsup("row of unbounded length")
            if not holds(s.guard, w):
                continue
        out.append(v)
    return out


def scenario(ctx, mpi):
    it = ctx.interp(have_mpi=mpi)
    node = it.funcs[it.get(SIM + "ec_monte_carlo").a[0]].node
    params = [x.arg for x in node.args.args]
    runs = []

    def mc(a, k):
        runs.append(({**dict(zip(params, a)), **k}, it.st.guard, it.st.loops))
        return ERR
    it.stubs = {"ec_monte_carlo": mc}
    mkd = lambda **k: snippet(it, "def f(%s):\n    return {%s}\n" % (", ".join(k), ", ".join("%r: %s" % (x, x) for x in k)), *k.values())
    ca, na, da = mkd(distance=A1, boundaries=A2), mkd(delta=A3, p_swap=A4), mkd(weight_opts=WO)
    i0, rows.header = len(it.events), None
    call(it, SIM + "run_ec_simulation", TR, CC, ca, NC, na, DEC_, da, FNAME)
    evs = it.events[i0:]
    W = FN % ("MPI" if mpi else "no MPI")
    decide(ctx, "run-arguments", W, lambda: arguments(it, runs, da, mpi), "the simulated run")
    for exists in (False, True):
        for named in (False, True):
            for rank in (0, 1, 2) if mpi else (0,):
                w = {"exists": exists, "named": named, "rank": rank}
                decide(ctx, "result-rows", W, lambda: rows(it, evs, w, mpi), "with %s %s file%s" % (
                    "an existing" if exists else "a new", "given" if named else "default", " at rank %d" % rank if mpi else ""))


def arguments(it, runs, da, mpi):
    if not runs:
        raise Unsup("no simulation found")
    if len(runs) > 1 or runs[0][2]:
        return "the simulation is run several times"
    if runs[0][1]:
        raise Unsup("the simulation is conditional")
    b = {k: v for k, v in runs[0][0].items()}
    code = mk("call", CC, mk("kw", "boundaries", A2), mk("kw", "distance", A1))
    for p, f in (("trials", lambda t: t is TR), ("code_instance", lambda t: same_call(it, t, CC, {"distance": A1, "boundaries": A2}, None)),
                 ("noise_instance", lambda t: same_call(it, t, NC, {"delta": A3, "p_swap": A4}, code)),
                 ("decoder", lambda t: t is DEC_), ("decoder_args", lambda t: t is da or it.obj(t) is not None and has(it.lib.val(t), WO)),
                 ("mpi_rank", lambda t: ext(t, "Get_rank") or t.op == "mcall" and t.a[0] == "Get_rank" if mpi else num_is(t, 0)),
                 ("mpi_size", lambda t: ext(t, "Get_size") or t.op == "mcall" and t.a[0] == "Get_size" if mpi else num_is(t, 1))):
        if p not in params_of(b):
            if p in ("mpi_rank", "mpi_size") and not mpi:
                continue
            return "%s is not passed on" % p
        if not f(b[p]):
            return "%s is %s" % (p, show(b[p]))
    return None


def params_of(b):
    return b


def num_is(t, v):
    return isc(t) and t.a[0] == v


def same_call(it, t, f, kw, first):
    if t.op != "call" or t.a[0] is not f:
        return False
    got = {x.a[0]: x.a[1] for x in t.a[1:] if x.op == "kw"}
    pos = [x for x in t.a[1:] if x.op != "kw"]
    if got != kw:
        return False
    if first is None:
        return not pos
    return len(pos) == 1 and same_call(it, pos[0], first.a[0], {x.a[0]: x.a[1] for x in first.a[1:]}, None)


def show(t):
    return repr(t.a[0]) if isc(t) else "%s(...)" % t.op if t.op != "s" else t.a[0]


def rows(it, evs, w, mpi):
    live = [e for e in evs if e.kind in ("open", "csv", "file") and holds(e.guard, w)]
    for e in live:
        if e.loops:
            raise Unsup("file access in a loop")
    if w["rank"] != 0:
        for e in live:
            if e.kind in ("csv", "file") and e.name not in ("close", "read", "flush"):
                return "another process than the first writes to the results file"
            if e.kind == "open" and (e.name or "r")[0] in "wax":
                return "another process than the first opens the results file for writing"
        return None
    for e in live:
        if e.kind == "file" and e.name in ("write", "writelines"):
            t = it.lib.val(e.val)
            if any(has(t, s) for s in (CC, A1, A2)):
                cs = set()
                contains(t, lambda x: isc(x) and isinstance(x.a[0], str) and cs.add(x.a[0]))
                if any("," in c for c in cs) and not any('"' in c or "\t" in c or ";" in c for c in cs):
                    return "values are joined by commas without quoting those that contain commas"
            raise Unsup("text written directly")
        q = e.extra["kw"].get("quoting") if e.kind == "csv" else None
        if q is not None and (ext(q, "QUOTE_NONE") or num_is(q, 3)):
            return "values that contain commas are not quoted"
    handles = {}
    for e in live:
        if e.kind != "open":
            continue
        mode = e.name
        if mode is None:
            m = pick(e.val, w)
            if not isc(m):
                raise Unsup("file mode")
            mode = m.a[0]
        path = pick(e.key, w)
        if w["named"] and not has(path, FNAME) or not w["named"] and (has(path, FNAME) or not isc(path) and not contains(path, lambda x: isc(x) and "sims_results" in str(x.a[0]))):
            return "the file opened is %s" % show(path)
        if not w["named"] and isc(path) and "sims_results.csv" not in str(path.a[0]):
            return "the default file is %s" % show(path)
        if "x" in mode and w["exists"]:
            handles[e.root] = "failing"
            continue
        if "w" in mode and w["exists"]:
            return "the existing file is opened with mode %r, which erases it" % mode
        handles[e.root] = mode
    data, head = [], []
    for e in live:
        if e.kind != "csv":
            continue
        f = pick(e.extra["file"], w)
        for x in [f]:
            if x not in handles:
                raise Unsup("the file of the writer")
            if handles[x] == "failing":
                return "the row is written to a file that could not be opened"
            if "r" in handles[x] and "+" not in handles[x]:
                return "the row is written to a file opened for reading"
        got = flat(e.extra["rows"], w)
        if e.name == "writerow":
            got = [got]
        elif e.name == "writerows":
            got = [flat(x, w) for x in got]
        else:
            raise Unsup("csv " + e.name)
        for r in got:
            r = [pick(x, w) if isinstance(x, T) else it.lib.val(x) for x in r]
            if all(isc(x) and isinstance(x.a[0], str) for x in r):
                if data:
                    return "the header is written after the row"
                head.append([x.a[0] for x in r])
            else:
                data.append(r)
    if len(data) != 1:
        return "%d rows are written" % len(data)
    if w["exists"] and head:
        return "a header is written into an existing file"
    if not w["exists"] and len(head) != 1:
        return "%d headers are written into a new file" % len(head)
    row = data[0]
    if not w["exists"]:
        rows.header = head[0]
    names = getattr(rows, "header", None)
    if names is None:
        raise Unsup("no header")
    if len(row) != len(names):
        return "the header has %d columns and the row %d values" % (len(names), len(row))
    size = (lambda t: ext(t, "Get_size")) if mpi else (lambda t: num_is(t, 1) or num_is(t, "1"))
    for label, f in (("code", lambda t: has(t, CC)), ("distance", lambda t: has(t, A1)), ("boundaries", lambda t: has(t, A2)), ("noise", lambda t: has(t, NC)),
                     ("delta", lambda t: has(t, A3)), ("p_swap", lambda t: has(t, A4)), ("decoder", lambda t: has(t, DEC_)), ("weight_opts", lambda t: has(t, WO)),
                     ("errors", lambda t: t is ERR or wraps(t, ERR)), ("trials", lambda t: t is TR or wraps(t, TR)), ("mpi_size", size),
                     ("current_time", lambda t: not any(has(t, s) for s in (ERR, TR, CC, NC))), ("simulation_time", lambda t: not any(has(t, s) for s in (ERR, TR, CC, NC)))):
        if names.count(label) != 1:
            return "the header has %d columns %r" % (names.count(label), label)
        v = row[names.index(label)]
        if not f(v):
            return "the value in column %r is %s" % (label, show(v))
    return None


def wraps(t, s):
    return t.op in ("str", "int", "fmt", "repr", "cat") and has(t, s)
