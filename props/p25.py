"""P25: labelled tables keep labels attached to values."""
import math

import numpy as np

from vf.core import Prop, st
from vf.util import N, check, chance, integer, pick, raises, real

from gpmp.misc.dataframe import DataFrame, ftos

PROP = Prop(
    "P25",
    rule="at least three operations, one of them changing or combining tables of more than one row and column",
    assumptions=["labels are distinct and no label names both a row and a column", "tables hold floating-point values"],
)

VALS = (0.5, -3.25, 0.0, 1234.5, 1e-3, -0.05, 7e10, -2.5e-12, 999.9996, 0.09999, float("inf"), float("-inf"), float("nan"), 3.0, 100.0)


def val(draw):
    return pick(draw, *VALS) if chance(draw, 1, 4) else real(draw, -50, 50)


def vals(draw, n):
    return [val(draw) for _ in range(n)]


def g_ops(draw):
    r, c = integer(draw, 1, 4), integer(draw, 1, 4)
    ops = draw(st.lists(st.tuples(st.integers(0, 13), *[st.integers(0, 1000)] * 6), min_size=1, max_size=12))
    return {"r": r, "c": c, "v": vals(draw, r * c), "ops": [list(o) for o in ops], "pool": [v if math.isfinite(v) else str(v) for v in vals(draw, 12)], "array": chance(draw, 1, 2)}


class T:
    """Model of a table: rows and columns as lists of labels, values in a dict."""

    def __init__(self, rows, cols, v):
        self.rows, self.cols, self.v = list(rows), list(cols), dict(v)

    def sub(self, rows, cols):
        return T(rows, cols, {(a, b): self.v[a, b] for a in rows for b in cols})


def eq(a, b):
    return a == b or (a != a and b != b)


def agree(df, t, what):
    check(list(df.rownames) == t.rows, f"{what}: row labels {list(df.rownames)}, expected {t.rows}", "labels")
    check(list(df.colnames) == t.cols, f"{what}: column labels {list(df.colnames)}, expected {t.cols}", "labels")
    d = N(df.data)
    check(d.shape == (len(t.rows), len(t.cols)), f"{what}: values of shape {d.shape} for {len(t.rows)} rows and {len(t.cols)} columns", "shape")
    for i, a in enumerate(t.rows):
        for j, b in enumerate(t.cols):
            check(eq(float(d[i, j]), t.v[a, b]), f"{what}: value stored at row {i} ({a}), column {j} ({b}) is {d[i, j]}, expected {t.v[a, b]}", "value")
            g = df[a, b]
            check(np.ndim(g) == 0 and eq(float(g), t.v[a, b]), f"{what}: [{a}, {b}] gives {g}, expected {t.v[a, b]}", "cell")


def printed(v, tok):
    try:
        x = float(tok)
    except ValueError:
        return False
    if v != v:
        return x != x
    if math.isinf(v) or v == 0:
        return x == v
    if 0.1 <= abs(v) < 1000:
        tol = 5.01e-4
    elif 0.01 <= abs(v) < 0.1:
        tol = 5.01e-5
    else:
        tol = 5.01e-4 * 10 ** math.floor(math.log10(abs(v)) + 1e-12) * (1 + 1e-9)
    return abs(x - v) <= tol


def show(df, t):
    lines = repr(df).split("\n")
    check(len(lines) == len(t.rows) + 1, f"the printed table has {len(lines)} lines for {len(t.rows)} rows", "print")
    check(lines[0].split() == t.cols, f"printed header {lines[0].split()}, expected {t.cols}", "print")
    ends = [m for m in range(len(lines[0])) if lines[0][m] != " " and (m + 1 == len(lines[0]) or lines[0][m + 1] == " ")]
    for a, ln in zip(t.rows, lines[1:]):
        tok = ln.split()
        check(len(tok) == len(t.cols) + 1 and tok[0] == a + ":", f"printed row {ln!r} for row {a}", "print")
        for b, s, e in zip(t.cols, tok[1:], ends):
            check(printed(t.v[a, b], s), f"cell [{a}, {b}] printed as {s} holds {t.v[a, b]}", "print")
            check(ln[: e + 1].endswith(s) and (e + 1 == len(ln) or ln[e + 1] == " "), f"cell [{a}, {b}] is not printed below its column", "align")


def slc(u, w, n):
    lo, hi = sorted((u % (n + 1), w % (n + 1)))
    return (slice(None), slice(lo, hi), slice(lo, None), slice(None, hi), slice(None, None, 2), slice(None, None, -1), slice(-1, None), slice(lo, lo + 1))[(u + w) % 8]


@PROP.case("operations", g_ops, quick=900, backends=("numpy",), budget=(20, 200))
def c_ops(case, ctx):
    R = [f"row{i}" for i in range(case["r"])]
    C = [f"c{j}" * (1 + (j == 1) * 4) for j in range(case["c"])]
    pool = [float(v) for v in case["pool"]]
    data = np.array(case["v"], float).reshape(case["r"], case["c"])
    src = data.copy() if case["array"] else data.tolist()
    rl, cl = list(R), list(C)
    df = DataFrame(src, cl, rl)
    t = T(R, C, {(a, b): float(data[i, j]) for i, a in enumerate(R) for j, b in enumerate(C)})
    live = [(df, t)]
    if case["array"] and data.size:
        src[0, 0] = 77.0 if t.v[R[0], C[0]] != 77.0 else 78.0
    rl.append("zz")
    cl.append("zz")
    agree(df, t, "new table")
    fresh = 0
    big = False
    for step, (op, k, u, w, y, q, s) in enumerate(case["ops"]):
        df, t = live[k % len(live)]
        nr, nc = len(t.rows), len(t.cols)
        what = f"step {step}"
        if nr * nc == 0 and op in (1, 4, 5, 6, 9, 10):
            continue
        a = t.rows[u % nr] if nr else None
        b = t.cols[w % nc] if nc else None
        big = big or (nr > 1 and nc > 1 and op >= 4)
        if op == 0:  # block
            rs, cs = slc(u, w, nr), slc(y, q, nc)
            live.append((df[rs, cs], t.sub(t.rows[rs], t.cols[cs])))
        elif op == 1:
            if s % 2:
                rs = slc(y, q, nr)
                live.append((df[rs, b], t.sub(t.rows[rs], [b])))
            else:
                cs = slc(y, q, nc)
                live.append((df[a, cs], t.sub([a], t.cols[cs])))
        elif op == 2 and nr:
            live.append((df[a], t.sub([a], t.cols)))
        elif op == 3 and nc:
            live.append((df[b], t.sub(t.rows, [b])))
        elif op == 4:
            df[a, b] = pool[y % 12]
            t.v[a, b] = pool[y % 12]
        elif op == 5:
            v = [pool[(y + j) % 12] for j in range(nc)] if s % 2 else pool[y % 12]
            df[a] = v if s % 3 else np.array(v)
            for j, c in enumerate(t.cols):
                t.v[a, c] = v[j] if s % 2 else v
        elif op == 6:
            v = [pool[(y + j) % 12] for j in range(nr)] if s % 2 else pool[y % 12]
            df[b] = v
            for i, r in enumerate(t.rows):
                t.v[r, b] = v[i] if s % 2 else v
        elif op == 7 and nr and nc:
            rs, cs = slc(u, w, nr), slc(y, q, nc)
            mode = s % 3
            rows = t.rows[rs] if mode != 1 else [a]
            cols = t.cols[cs] if mode != 2 else [b]
            blk = np.array([[pool[(i * 5 + j + s) % 12] for j in range(len(cols))] for i in range(len(rows))], float).reshape(len(rows), len(cols))
            if mode == 0:
                df[rs, cs] = blk
            elif mode == 1:
                df[a, cs] = blk[0]
            else:
                df[rs, b] = blk[:, 0]
            for i, r in enumerate(rows):
                for j, c in enumerate(cols):
                    t.v[r, c] = float(blk[i, j])
        elif op == 8 and nc:
            fresh += 1
            v = [pool[(y + j) % 12] for j in range(nc)]
            df.append_row(v if s % 2 else np.array(v), f"n{fresh}")
            t.rows.append(f"n{fresh}")
            t.v.update({(f"n{fresh}", c): v[j] for j, c in enumerate(t.cols)})
        elif op == 9:
            fresh += 1
            v = [pool[(y + j) % 12] for j in range(nr)]
            df.append_col(v if s % 2 else np.array(v), f"m{fresh}")
            t.cols.append(f"m{fresh}")
            t.v.update({(r, f"m{fresh}"): v[i] for i, r in enumerate(t.rows)})
        elif op == 10:  # below a table with the same columns
            names = [f"p{step}_{i}" for i in range(1 + s % 3)]
            o = T(names, t.cols, {(r, c): pool[(i + 3 * j + y) % 12] for i, r in enumerate(names) for j, c in enumerate(t.cols)})
            d2 = DataFrame([[o.v[r, c] for c in o.cols] for r in o.rows], list(o.cols), list(o.rows))
            live += [(d2, o), (df.concat(d2) if q % 2 else df.concat(d2, axis=0), T(t.rows + names, t.cols, {**t.v, **o.v}))]
            # labels both tables have stay where they are, each row with its own values
            shared = [t.rows[(i + s) % nr] if nr and i % 2 else f"s{i}" for i in range(3)]
            vals = [[pool[(5 * i + j + q) % 12] for j in range(nc)] for i in range(3)]
            if nc:
                d4 = df.concat(DataFrame(vals, list(t.cols), shared))
                check(list(d4.rownames) == t.rows + shared, f"rows {list(d4.rownames)} for {t.rows} followed by {shared}", "concat")
                check(all(eq(float(d4.data[nr + i, j]), vals[i][j]) for i in range(3) for j in range(nc)), "values of the second table moved", "concat")
        elif op == 11 and nr:
            names = [f"q{step}_{i}" for i in range(1 + s % 3)]
            o = T(t.rows, names, {(r, c): pool[(i + 3 * j + y) % 12] for i, r in enumerate(t.rows) for j, c in enumerate(names)})
            d2 = DataFrame([[o.v[r, c] for c in o.cols] for r in o.rows], list(o.cols), list(o.rows))
            live += [(d2, o), (df.concat(d2, axis=1), T(t.rows, t.cols + names, {**t.v, **o.v}))]
        elif op == 12:
            d2, o = live[y % len(live)]
            if o.cols != t.cols:
                check(raises(lambda: df.concat(d2), ValueError), "tables with different columns are concatenated vertically", "concat")
            if o.rows != t.rows:
                check(raises(lambda: df.concat(d2, axis=1), ValueError), "tables with different rows are concatenated horizontally", "concat")
            for axis, names in ((0, t.cols), (1, t.rows)):
                if len(names) < 2 or len(set(names)) < len(names):
                    continue
                k = 1 + q % (len(names) - 1)
                turned = names[k:] + names[:k]  # the same labels in another order
                rows, cols = (["extra"], turned) if axis == 0 else (turned, ["extra"])
                o = T(rows, cols, {(r, c): pool[(i + 5 * j + y) % 12] for i, r in enumerate(rows) for j, c in enumerate(cols)})
                d2 = DataFrame([[o.v[r, c] for c in o.cols] for r in o.rows], list(o.cols), list(o.rows))
                try:
                    d3 = df.concat(d2, axis=axis)
                except ValueError:
                    continue
                m3 = T(t.rows + rows, t.cols, {**t.v, **o.v}) if axis == 0 else T(t.rows, t.cols + cols, {**t.v, **o.v})
                agree(d3, m3, f"concatenation along axis {axis} of tables whose labels are in different orders")
        elif op == 13:
            check(raises(lambda: df["nobody"], KeyError), "an unknown label is accepted", "unknown")

            def put():
                df["nobody"] = 1.0

            check(raises(put, KeyError), "an unknown label can be assigned", "unknown")
            check(raises(lambda: df["nobody", "c0"]), "an unknown row label is accepted", "unknown")
        ctx.tag(f"op{op}")
        for i, (d1, m1) in enumerate(live):
            agree(d1, m1, f"{what} (operation {op}), table {i} of {len(live)}")
    for d1, m1 in live:
        if m1.cols:
            show(d1, m1)
    ctx.nontrivial(len(case["ops"]) >= 3 and big)


def g_num(draw):
    e = integer(draw, -40, 40)
    return {"m": real(draw, 1.0, 10.0, 2000), "e": e if chance(draw, 1, 2) else integer(draw, -4, 5), "neg": chance(draw, 1, 2), "fp": pick(draw, 3, 4, 2)}


@PROP.case("number-format", g_num, quick=1500, budget=(15, 100))
def c_num(case, ctx):
    from vf.util import A

    v = case["m"] * 10.0 ** case["e"] * (-1 if case["neg"] else 1)
    fp = case["fp"]
    for x in (v, A(v), np.float64(v)):
        s = ftos(x, fp)
        check(isinstance(s, str) and " " not in s, f"{v} formatted as {s!r}", "format")
        try:
            g = float(s)
        except ValueError:
            check(False, f"{v} formatted as {s!r}", "format")
        tol = 0.51 * 10.0**-fp * (1.0 if 0.1 <= abs(v) < 1000 else (0.1 if 0.01 <= abs(v) < 0.1 else 10.0 ** math.floor(math.log10(abs(v)) + 1e-12)))
        check(abs(g - v) <= tol, f"{v} formatted as {s!r} with {fp} decimals", "format")
    ctx.nontrivial(True)
