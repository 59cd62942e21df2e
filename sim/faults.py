"""Generation and placement of faults."""

IO_KINDS = ("crash", "crash", "crash", "interrupt", "enospc", "eio", "eacces")


def gen_io(rng, kinds=IO_KINDS):
    """A disk-level fault at a place given as a fraction of the operation, or
    (with v) at a file chosen uniformly and then at one of its calls."""
    f = {"kind": rng.choice(kinds), "u": int(rng.random() * 1e4) / 1e4}
    if rng.random() < 0.1:
        f["u"] = rng.choice([0.0, 0.9999, 0.98, 0.99])
    f["mode"] = rng.choice(["before", "after", "torn"])
    if f["mode"] == "torn":
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
    if f["kind"] in ("enospc", "eio") and rng.random() < 0.3:
        f["sticky"] = rng.choice([True, True, "file"])
    if rng.random() < 0.4:
        f["v"] = int(rng.random() * 1e4) / 1e4
    return f


def gen_line(rng):
    """At an event chosen uniformly, or (with v) at a source line chosen
    uniformly and then at one of the times it runs."""
    f = {"kind": "interrupt-line", "u": int(rng.random() * 1e4) / 1e4}
    if rng.random() < 0.6:
        f["v"] = int(rng.random() * 1e4) / 1e4
    return f


def gen_alloc(rng):
    return {"kind": "alloc", "u": int(rng.random() * 1e4) / 1e4}


def place(fault, counts):
    """The fault at a definite place, given the counts of a dry run."""
    f = dict(fault)
    v = f.pop("v", None)
    groups = (counts.get("lines") if f["kind"] == "interrupt-line"
              else counts.get("files", {}).get(f["kind"]))
    if "at" not in f and v is not None and groups:
        times = list(groups.values())
        times = times[min(int(f["u"] * len(times)), len(times) - 1)]
        f["at"] = times[min(int(v * len(times)), len(times) - 1)]
    if "at" not in f:
        n = max(counts.get(f["kind"], 0), 1)
        f["at"] = min(int(f["u"] * n), n - 1)
    f.pop("u", None)
    return f


def simpler(fault):
    """Simpler variants of a fault, for minimisation."""
    if fault.get("sticky"):
        yield {k: v for k, v in fault.items() if k != "sticky"}
    if fault.get("mode") in ("torn", "after"):
        f = {k: v for k, v in fault.items() if k != "frac"}
        f["mode"] = "before"
        yield f
