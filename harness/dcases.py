"""Concretises dictionary histories generated by TLC from DictMachine.tla."""
KEYMAPS = [{"1": "xi1", "2": "b", "3": "a"}, {"1": "z", "2": "y", "3": "x"}, {"1": 3, "2": 1, "3": 2}, {"1": ["t", 1], "2": ["t", 0], "3": ["s", 5]}]
SHAPES = {0: [[0]], 1: [[1], [1, 1], []], 4: [[4], [2, 2], [4, 1], [1, 4], [2, 1, 2]]}


def concretise(rng, hist, cls, arith):
    """hist: list of {op,i,j,k,n}; shapes: fixed per (key,size) in one history so that compatibility is the model's."""
    robust = cls == "TFCDictRobust"
    usenp = rng.random() < 0.25
    shp = {}
    for k in (1, 2, 3):
        for n in SHAPES:
            shp[k, n] = rng.choice(SHAPES[n] if robust else [[n]])
            if shp[k, n] == [] and (usenp or not robust):    # numpy turns 0-d results into scalars: not arrays any more
                shp[k, n] = [1]

    def ent(k, n):
        return {"k": str(k), "s": shp[k, n], "v": [rng.randint(-99, 99) for _ in range(n)]}

    st, steps = [], []        # st[i]: list of (k, n) in order
    for h in hist:
        op, i, j, k, n = h["op"], h["i"], h["j"], h["k"], h["n"]
        s = {"op": op, "i": i, "j": j, "form": rng.randint(0, 1)}
        if usenp and op in ("iadd", "isub"):
            # in-place arithmetic on numpy values works on the arrays themselves, which a copy shares: not part of the property
            return None
        if usenp and op in ("iaddA", "isubA"):
            op = s["op"] = op[1:]
        size = lambda: sum(x[1] for x in st[i - 1])
        if op == "new":
            st.append([(k, n)])
            s["ents"] = [ent(k, n)]
        elif op == "clone":
            st.append(st[i - 1][::-1])
            s["ents"] = [ent(*x) for x in st[-1]]
        elif op in ("put", "update"):
            d = st[i - 1]
            pos = [q for q, x in enumerate(d) if x[0] == k]
            if pos:
                d[pos[0]] = (k, n)
            else:
                d.append((k, n))
            s["ents"] = [ent(k, n)]
        elif op == "del":
            st[i - 1] = [x for x in st[i - 1] if x[0] != k]
            s["key"] = str(k)
        elif op == "move":
            st[i - 1] = [x for x in st[i - 1] if x[0] != k] + [x for x in st[i - 1] if x[0] == k]
            s["key"] = str(k)
        elif op == "todict":
            s["arr"] = [rng.randint(-99, 99) for _ in range(size())]
            st.append(list(st[i - 1]))
        elif op in ("add", "sub"):
            st.append(list(st[i - 1]))
        elif op in ("addA", "subA", "iaddA", "isubA"):
            s["arr"] = [rng.randint(-99, 99) for _ in range(size())]
        steps.append(s)
    return {"cls": cls, "np": usenp, "cx": rng.random() < 0.2, "keymap": rng.choice(KEYMAPS), "steps": steps}
