"""C11: every edit of a tag's frames keeps its lookup tables in step."""

from facts import AnalysisBroken
from interp import F, Env, Interp, Res, T, TOP, dedupe
from program import const, fn_nodes, uncast, walk

TECHNIQUE = "typestate over the frame list and the lookup tables: every function that touches them is interpreted abstractly, with symbolic positions, frame classes and entries, from an arbitrary consistent tag"

READS = {"find_if", "find", "for_each", "any_of", "all_of", "none_of", "accumulate", "transform", "copy", "count_if", "count", "distance", "find_if_not",
         "back_inserter", "begin", "end", "cbegin", "cend", "size", "empty", "next", "prev", "advance", "inserter", "copy_if", "max_element", "move", "forward",
         "addressof", "as_const", "make_pair"}


def uptr_to(t):
    t = t.deref()
    if t.rec == "std::unique_ptr" and t.targs and hasattr(t.targs[0], "rec"):
        return t.targs[0].rec
    return None


def elem(t):
    t = t.deref()
    return [a for a in (t.targs or ()) if hasattr(a, "k")]


class Shape:
    """A class with a list of owned frames and tables that index them."""

    def __init__(self, prog, rec):
        self.cls = rec["n"]
        self.frames = self.base = None
        self.looks = {}         # name -> ("typed", class) (pointer, position) | ("ptr", class) id -> pointer | ("pos",) id -> position
        for f in rec["fields"]:
            t = f["t"].deref()
            if t.rec == "std::vector" and elem(t) and uptr_to(elem(t)[0]) and prog.recs.get(uptr_to(elem(t)[0])):
                self.frames, self.base = f["n"], uptr_to(elem(t)[0])
        if self.frames is None:
            return
        for f in rec["fields"]:
            t = f["t"].deref()
            if f["n"] == self.frames or not (t.rec or "").startswith("std::"):
                continue
            es = elem(t)
            if es and es[0].rec == "std::pair":
                es = elem(es[0])
            ptr = [e for e in es if e.k == "ptr" and e.to.rec and self.is_frame(prog, e.to.rec)]
            pos = [e for e in es[:2] if e.k in ("int", "uint") and e.sz == 8]
            key = [e for e in es[:1] if e.k == "rec" and "frame_id" in (e.rec or "")]
            if ptr and pos:
                self.looks[f["n"]] = ("typed", ptr[0].to.rec)
            elif ptr and key:
                self.looks[f["n"]] = ("ptr", ptr[0].to.rec)
            elif key and pos and "map" in t.rec:
                self.looks[f["n"]] = ("pos", None)

    def is_frame(self, prog, q):
        return q == self.base or self.base in prog.bases(q)


class S:
    """What is known of one tag: relative to the consistent tag it started as."""

    __slots__ = ("f", "off", "ep", "look", "at", "gone", "ent", "rem", "msg")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k[n])

    def but(self, **k):
        d = {n: getattr(self, n) for n in self.__slots__}
        d.update(k)
        return S(**d)

    def tup(self):
        return (self.f, self.off, self.ep, self.look, self.at, self.gone, self.ent, self.rem, self.msg)

    def __eq__(self, o):
        return isinstance(o, S) and self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def mode(self, L):
        return dict(self.look)[L]

    def setmode(self, L, m):
        d = dict(self.look)
        d[L] = m
        return tuple(sorted(d.items(), key=str))


def start(shape, empty=False):
    m = "empty" if empty else "ok"
    return S(f="empty" if empty else "base", off=0, ep=0, look=tuple(sorted((L, m) for L in shape.looks)), at=(), gone=(), ent=(), rem=frozenset(), msg=())


class Tags(Interp):
    depth_limit = 7

    def __init__(self, prog, shapes, ids):
        Interp.__init__(self, prog)
        self.shapes, self.ids = shapes, ids
        self.shape = None
        self.n = 0
        self.touches = {}
        self.lambdas = {}
        self.events = set()

    # -- objects --------------------------------------------------------------
    def state(self, o, env):
        return env.get(("S", o)) or start(self.shape)

    def upd(self, o, env, **k):
        return env.put(("S", o), self.state(o, env).but(**k))

    def say(self, o, env, msg):
        s = self.state(o, env)
        return env if msg in s.msg else self.upd(o, env, msg=s.msg + (msg,))

    def tag_type(self, t):
        t = t.deref()
        if t.k == "ptr":
            t = t.to.deref()
        return t.rec == self.shape.cls

    def member_of(self, o, name, e):
        if e.get("cls") == self.shape.cls or True:
            if name == self.shape.frames:
                return ("frames", o)
            if name in self.shape.looks:
                return ("look", o, name)
        return None

    def ev(self, e, env):
        if e is None:
            return [(TOP, env)], []
        k = e["k"]
        if k == "this":
            return [(("obj", env.get("#this", "this")), env)], []
        if k == "mem":
            outs, th = self.ev(e["b"], env) if e.get("b") is not None else ([(("obj", env.get("#this", "this")), env)], [])
            res = []
            for v, x in outs:
                res.append((self.field(e, v, x), x))
            return res, th
        if k == "cast" and e.get("dyn"):
            outs, th = self.ev(e["e"], env)
            res = []
            for v, x in outs:
                if v[0] != "tok":
                    res += [(TOP, x)]
                    continue
                t = e["t"].deref()
                c = (t.to if t.k == "ptr" else t).deref().rec
                yes, no = self.split(v, c, x)
                if yes is not None:
                    res.append((v, yes))
                if no is not None and t.k == "ptr":
                    res.append((("nil",), no))
            return res, th
        if k == "lambda":
            self.lambdas[id(e)] = e
        if k == "new":
            c = e["at"].deref().rec if e.get("at") is not None else None
            if c and self.shape.is_frame(self.prog, c):
                outs, th = self.evs(e["i"]["a"] if e.get("i") is not None and e["i"]["k"] == "ctor" else [], env)
                res = []
                for vs, x in outs:
                    v, x = self.fresh(c, x, vs, exact=True)
                    res.append((v, x))
                return res, th
        return Interp.ev(self, e, env)

    def field(self, e, v, env):
        n = e["n"]
        if v[0] == "obj" and (n == self.shape.frames or n in self.shape.looks):
            return self.member_of(v[1], n, e)
        if v[0] == "obj":
            if v[1] == "this" and ("m", n) in env:
                return env[("m", n)]
            if e.get("t") is not None and self.tag_type(e["t"]):
                return ("obj", n if v[1] == "this" else "%s.%s" % (v[1], n))
            return ("sym", n if v[1] == "this" else "%s.%s" % (v[1], n))
        if v[0] == "pair":
            return v[1] if n == "first" else v[2]
        if v[0] == "hit":
            return self.of_hit(v, n)
        if e.get("t") is not None and self.tag_type(e["t"]):
            return ("obj", "%s.%s" % (v[1] if v[0] == "sym" else "?", n))
        return ("sym", "%s.%s" % (v[1], n)) if v[0] == "sym" else TOP

    def of_hit(self, v, n):
        kind = self.shape.looks[v[2]][0]
        cond = dict(v[3])
        if n in cond:
            return cond[n]
        if kind in ("typed", "pos") and n == "second":
            return ("sym", "pos of %s" % (v[1:],).__hash__()) if False else ("sym", "pos:" + str(v[1:4]))
        if kind == "typed" and n == "first" or kind == "ptr" and n == "second":
            return ("tok", "at:" + str(v[1:4]))
        return ("key", str(v[1:4]))

    def member(self, e, base, env):
        return self.field(e, base, env)

    def unbound(self, e, env):
        t = e["t"].deref()
        if self.tag_type(e["t"]):
            return ("obj", e["n"])
        if t.rec and "frame_id" in t.rec:
            return ("idlit", self.id_text(e)) if self.id_text(e) else ("key", e["n"])
        if e.get("parm"):
            return self.param(e["n"], e["t"])
        return TOP

    def id_text(self, e):
        return self.statics.get(e.get("id")) if hasattr(self, "statics") else None

    def param(self, name, t):
        r = t.deref()
        if self.tag_type(t):
            return ("obj", name)
        if r.k == "rec" and self.shape.is_frame(self.prog, r.rec or ""):
            return ("src", name, r.rec)
        if r.rec and "frame_id" in r.rec:
            return ("key", name)
        if r.k in ("int", "uint"):
            return ("sym", name)
        if r.rec == "std::unique_ptr" and uptr_to(r):
            return ("tok", "arg:" + name)
        return ("sym", name)

    # -- frames ---------------------------------------------------------------
    def fresh(self, cls, env, args=(), exact=False, ext=False):
        i = env.get("#n", 0)
        env = env.put("#n", i + 1)
        t = "new%d" % i
        keys = frozenset(a for a in args if a[0] in ("key", "idlit", "idof"))
        if exact:
            for s in (self.ids.get(cls),):
                if s:
                    keys |= {("idlit", s)}
        return ("tok", t), env.put(("T", t), (cls, frozenset(), keys, ext))

    def info(self, t, env):
        return env.get(("T", t)) or (None, frozenset(), frozenset(), t.startswith("arg:") and False)

    def isa(self, t, c, env):
        """Is the frame of class c?  True, False or None."""
        cls, nots, keys, ext = self.info(t, env)
        if cls:
            if cls == c or c in self.prog.bases(cls):
                return True
            if cls == self.shape.base:
                pass
            elif cls not in self.prog.bases(c):
                return False
        if c in nots or any(n in self.prog.bases(c) for n in nots):
            return False
        return None

    def split(self, v, c, env):
        r = self.isa(v[1], c, env)
        cls, nots, keys, ext = self.info(v[1], env)
        if r is True:
            return env, None
        if r is False:
            return None, env
        return env.put(("T", v[1]), (c, nots, keys, ext)), env.put(("T", v[1]), (cls, nots | {c}, keys, ext))

    def at(self, o, pos, env):
        for p, t in self.state(o, env).at:
            if p == pos:
                return ("tok", t)
        return ("tok", "b:%s:%d:%s" % (o, self.state(o, env).ep, pos))

    def size(self, o, env):
        s = self.state(o, env)
        if s.f == "empty":
            return ("i", s.off)
        return ("idx", o, s.ep, s.off)

    def append(self, o, v, env):
        if v[0] != "tok":
            v, env = self.fresh(None, env, ext=v[0] == "ext")
        s = self.state(o, env)
        p = self.size(o, env)
        self.events.add("append")
        return self.upd(o, env, at=s.at + ((p, v[1]),), off=s.off + 1)

    def shifted(self, o, env):
        s = self.state(o, env)
        self.events.add("shift")
        return self.upd(o, env, f="changed", off=0, ep=s.ep + 1, at=(), gone=(), ent=(), rem=frozenset(), look=tuple((L, "stale") for L, m in s.look))

    def replace(self, o, pos, v, env):
        if v[0] != "tok":
            v, env = self.fresh(None, env)
        old = self.at(o, pos, env)
        s = self.state(o, env)
        self.events.add("replace")
        return self.upd(o, env, at=tuple(x for x in s.at if x[0] != pos) + ((pos, v[1]),), gone=s.gone + (old[1],))

    def add(self, o, L, vals, env):
        flat = []
        for v in vals:
            flat += [v[1], v[2]] if v[0] == "pair" else [v]
        kind = self.shape.looks[L][0]
        tok = next((v[1] for v in flat if v[0] == "tok"), None)
        key = next((v for v in flat if v[0] in ("key", "idof", "idlit")), None)
        pos = next((v for v in flat if v[0] in ("sym", "idx", "i", "each")), None)
        s = self.state(o, env)
        self.events.add("add " + L)
        return self.upd(o, env, ent=s.ent + ((L, tok if kind != "pos" else None, pos if kind != "ptr" else None, key if kind != "typed" else None),))

    def drop(self, o, L, cond, env):
        """Remove the entry that matches a condition (found or known not to be there)."""
        s = self.state(o, env)
        kind = self.shape.looks[L][0]
        c = dict(cond)
        tok = c.get("first") if kind == "typed" else c.get("second") if kind == "ptr" else None
        pos = c.get("second") if kind in ("typed", "pos") else None
        self.events.add("drop " + L)
        if tok is None and pos is None:
            return self.upd(o, env, look=s.setmode(L, "stale"))
        for e in s.ent:
            if e[0] == L and (tok is None or e[1] == tok[1]) and (pos is None or e[2] == pos):
                es = list(s.ent)
                es.remove(e)
                return self.upd(o, env, ent=tuple(es))
        if tok is None:
            tok = ("tok", "b:%s:%d:%s" % (o, s.ep, pos))
        return self.upd(o, env, rem=s.rem | {(L, tok[1])})

    # -- judgement --------------------------------------------------------------
    def problems(self, o, env):
        s = self.state(o, env)
        out = list(s.msg)
        modes = {m for L, m in s.look} | {s.f}
        if len(modes) == 1 and isinstance(s.f, tuple):
            return out
        good = {"base": "ok", "changed": "ok", "empty": "empty"}.get(s.f)
        for L, m in s.look:
            if m != good and m[0] != "re":
                out.append("%s does not follow the change of the frame list" % L if m == "stale" else
                           "%s is emptied but not filled again" % L if m == "empty" else "%s is not emptied with the frame list" % L)
        bad = {L for L, m in s.look if m != good and m[0] != "re"}
        # a table filled again from the whole list covers what was in the list then
        old = {L: m[1:] if m[0] == "re" else (frozenset(), frozenset()) for L, m in s.look}
        ent = list(s.ent)
        for pos, t in s.at:
            for L, (kind, c) in self.shape.looks.items():
                if L in bad or t in old[L][0]:
                    continue
                mine = [e for e in ent if e[0] == L and (e[1] == t if kind != "pos" else e[2] == pos)]
                need = True if kind == "pos" else self.isa(t, c, env)
                if need is None and self.info(t, env)[3]:
                    need = False
                if need is False:
                    continue
                if not mine:
                    out.append("a frame%s is put into the tag without being entered in %s" % ("" if need else " that may be a " + c.split("::")[-1], L))
                elif len(mine) > 1:
                    out.append("a frame is entered in %s twice" % L)
                else:
                    e = mine[0]
                    ent.remove(e)
                    if kind != "ptr" and e[2] != pos:
                        out.append("a frame is entered in %s with a position that is not its own" % L)
                    if kind != "typed" and e[3] is not None and not self.key_ok(t, e[3], env):
                        out.append("a frame is entered in %s under an identifier that is not its own" % L)
        for e in ent:
            if e[0] not in bad:
                wrong = [t for p, t in s.at if e[1] == t]
                out.append("%s gets an entry for a position or frame that is not in the tag" % e[0])
        for g in s.gone:
            for L, (kind, c) in self.shape.looks.items():
                if L in bad or g in old[L][1] or not g.startswith("b:") or env.get(("void", o, L)):
                    continue
                if kind != "pos" and self.isa(g, c, env) is False:
                    continue
                if (L, g) not in s.rem:
                    out.append("the frame that is replaced stays in %s" % L)
        left = {g for L, g in s.rem} - set(s.gone)
        for g in left:
            out.append("a frame that stays in the tag is removed from %s" % ", ".join(sorted({L for L, x in s.rem if x == g})))
        return out

    def key_ok(self, t, k, env):
        if k == ("idof", t):
            return True
        keys = self.info(t, env)[2]
        if k[0] == "idlit":
            lits = {x[1] for x in keys if x[0] == "idlit"}
            return not lits or k[1] in lits
        if k[0] == "key":
            ks = {x for x in keys if x[0] == "key"}
            eq = {x for x in env.get("#eq", ()) if x[0] == k}
            lits = {x[1] for x in keys if x[0] == "idlit"}
            return not ks and not lits or k in ks or any(l in lits for _, l in eq)
        return False

    # -- calls ------------------------------------------------------------------
    def call(self, n, obj, args, env):
        f = n.get("f") or n.get("cls") or ""
        nm = f.split("::")[-1]
        op = n.get("op")

        def one(v, e=None):
            return [(v, env if e is None else e)], []
        if n["k"] == "ctor":
            if f == "std::pair" and len(args) == 2:
                return one(("pair",) + args)
            if f == "std::unique_ptr" and args:
                return one(args[0])
            if "frame_id" in f:
                lit = next((a[1] for a in args if a[0] == "lit"), None)
                return one(("idlit", lit) if lit else ("key", "id:" + str(args)))
            if self.shape.is_frame(self.prog, f):
                src = args[0] if args else TOP
                v, env = self.fresh(f, env, args, exact=True)
                return one(v, env)
            if f == self.shape.cls:
                return one(TOP)
            return one(args[0] if len(args) == 1 and args[0][0] in ("hit", "end", "fit", "pair", "tok", "sym", "idx", "each") else TOP)
        # frame list
        o = obj if obj is not None else args[0] if args and op else None
        rest = args if obj is not None else args[1:]
        if o is not None and o[0] == "frames":
            return self.on_frames(n, o[1], nm, op, rest, env)
        if o is not None and o[0] == "look":
            return self.on_look(n, o[1], o[2], nm, op, rest, env)
        if nm in ("move", "forward", "get", "release", "as_const", "addressof", "make_move_iterator", "ref") and (obj is not None or args):
            v = obj if obj is not None else args[0]
            if v[0] in ("tok", "frames", "look", "obj", "src", "sym", "idx", "hit", "fit", "pair"):
                return one(v)
        if nm == "make_pair" and len(args) == 2:
            return one(("pair",) + args)
        if nm in ("make_unique", "make_shared") and n["t"].deref().rec and elem(n["t"]):
            c = elem(n["t"])[0].rec
            if c and self.shape.is_frame(self.prog, c):
                v, e = self.fresh(c, env, args, exact=True)
                return one(v, e)
        if op in ("->", "*") and o is not None and o[0] in ("tok", "hit", "src", "obj"):
            return one(o)
        if op in ("->", "*") and o is not None and o[0] == "fit":
            return one(self.at(o[1], o[2], env))
        # frames
        if o is not None and o[0] in ("tok", "src"):
            if op == "=" and len(args) == 2:
                return self.assign(n, args, env)
            if nm in ("swap", "reset") and obj is not None:
                return self.swap_elem(n, nm, obj, args, env)
            if nm == "id":
                return one(("idof", o[1]) if o[0] == "tok" else ("key", o[1]))
            if nm == "clone" or nm == "release":
                v, e = self.fresh(None if o[0] == "tok" else None, env, (("key", o[1]),) if o[0] == "src" else ())
                if o[0] == "src" and o[2] != self.shape.base:
                    e = e.put(("T", v[1]), (o[2], frozenset(), e[("T", v[1])][2], False))
                return one(v, e)
            if op in ("==", "!="):
                r = None
                if args[0][0] == "tok" and args[1][0] == "tok" and args[0] == args[1]:
                    r = op == "=="
                return one(TOP if r is None else T if r else F)
            if n.get("conv") or op == "!":
                return one(TOP)
            return one(TOP)
        # identifiers
        if op in ("==", "!=") and len(args) == 2:
            r = self.relate(op, args[0], args[1], env)
            if r is not None:
                return r, []
        if o is not None and o[0] == "idof" and "text" in nm:
            t = o[1]
            cls, nots, keys, ext = self.info(t, env)
            tc = [c for k, c in self.shape.looks.values() if k == "ptr"]
            return [(T, env), (F, env.put(("T", t), (cls, nots | set(tc), keys, ext)))], []
        # positions
        if op in ("+", "-") and len(args) == 2:
            return one(self.arith(op, args[0], args[1]))
        if op in ("++", "--") and args:
            key = self.lkey(n["a"][0])
            v = self.arith("+" if op == "++" else "-", args[0], ("i", 1))
            return one(args[0] if len(args) > 1 else v, env.put(key, v) if key is not None else env)
        if op == "=" and len(args) == 2:
            return self.assign(n, args, env)
        if nm == "swap" and len(args) == 2 and obj is None:
            return self.swap2(n, args, env)
        if nm in ("find_if", "remove_if", "find_if_not") and args and args[0][0] == "hit" and obj is None:
            cond = self.condition(args[-1], env)
            return one(("hit", args[0][1], args[0][2], cond, nm == "remove_if"))
        if nm == "erase_if" and len(args) == 2 and args[0][0] == "look":
            return one(TOP, self.drop(args[0][1], args[0][2], self.condition(args[1], env), env))
        if nm in ("distance",) and len(args) == 2:
            return one(self.arith("-", args[1], args[0]))
        if nm == "index" and obj is not None:
            return one(("sym", "%s.index" % str(obj[1] if len(obj) > 1 else obj)))
        if nm == "next" and args and args[0][0] == "fit":
            return one(self.arith("+", args[0], args[1] if len(args) > 1 else ("i", 1)))
        # anything else that gets hold of the list
        gs = [g for g in self.prog.targets(n) or () if g.get("body") is not None]
        if obj is not None and obj[0] == "obj" and len(gs) == 1 and self.touching(gs[0]):
            return self.method(n, gs[0], obj[1], args, env)
        if len(gs) == 1 and op == "()" and args and args[0][0] == "lambda" and gs[0]["u"] not in self.stack and self.touching(gs[0]):
            return self.run(gs[0], list(args[1:]), Env({k: v for k, v in env.items() if k not in {p["id"] for p in gs[0]["ps"]}}))
        if len(gs) == 1 and obj is None and n["k"] == "call" and not gs[0].get("virt") and any(
                a[0] in ("frames", "look", "obj", "tok") for a in args) and self.touching(gs[0]):
            return None
        if nm not in READS:
            e = env
            for a, v in zip(n["a"], args):
                if v[0] == "fit" or v[0] == "frames":
                    t = a["t"].deref()
                    if not n.get("const"):
                        e = self.shifted(v[1], e) if "scribbu" not in f else e
            if e is not env:
                return one(TOP, e)
        if nm == "operator()" or op == "()":
            if uptr_to(n["t"]) and self.shape.is_frame(self.prog, uptr_to(n["t"])):
                c = uptr_to(n["t"])
                v, e = self.fresh(c if c != self.shape.base else None, env, args, ext=True)
                return one(v, e)
        if n.get("t") is not None:
            c = uptr_to(n["t"])
            if c and self.shape.is_frame(self.prog, c):
                v, e = self.fresh(c if c != self.shape.base else None, env, args)
                return one(v, e)
            if self.tag_type(n["t"]):
                return one(o if o is not None and o[0] == "obj" else TOP)
            if n["t"].deref().k in ("int", "uint") and obj is not None and obj[0] == "sym":
                return one(("sym", "%s.%s" % (obj[1], nm)))
        return one(TOP)

    def touching(self, g):
        """Does a function, or one it calls on the same class, change the list or the tables?"""
        if g["u"] not in self.touches:
            self.touches[g["u"]] = False
            r = mentions(self.shape, g)
            if not r:
                for c in fn_nodes(g):
                    if c.get("k") == "call":
                        for h in self.prog.targets(c) or ():
                            if h.get("body") is not None and (h.get("cls") or "").startswith(self.shape.cls) and self.touching(h):
                                r = True
                                break
                    if r:
                        break
            self.touches[g["u"]] = r
        return self.touches[g["u"]]

    def method(self, n, g, o, args, env):
        if g.get("const") or g["u"] in self.stack or len(self.stack) > self.depth_limit:
            return [(TOP, env)], []
        this = env.get("#this", "this")
        sub = Env({k: v for k, v in env.items() if k not in {p["id"] for p in g["ps"]}})
        sub["#this"] = o
        args = list(args)
        for p in g["ps"][len(args):]:
            args.append(TOP)
        rets, th = self.run(g, args, sub)
        return [(v, x.put("#this", this)) for v, x in rets], [(t, x.put("#this", this)) for t, x in th]

    def enter(self, n, obj, args, env):
        return Interp.enter(self, n, obj, args, env)

    def elem_of(self, e, env):
        """(object, position) if an expression denotes an element of a frame list."""
        u = uncast(e)
        while u is not None and u["k"] == "ctor" and len(u["a"]) == 1:
            u = uncast(u["a"][0])
        if u is None or u["k"] != "call":
            if u is not None and u["k"] == "var" and ("E", u.get("id")) in env:
                return env[("E", u["id"])]
            return None
        nm = (u.get("f") or "").split("::")[-1]
        base = u["obj"] if u.get("obj") is not None else u["a"][0] if u["a"] else None
        if base is None:
            return None
        outs, th = self.ev(base, env)
        v = outs[0][0] if len(outs) == 1 else TOP
        if v[0] == "frames" and (u.get("op") == "[]" or nm == "at"):
            iv, _ = self.ev(u["a"][-1], env)
            return (v[1], iv[0][0]) if len(iv) == 1 else None
        if v[0] == "frames" and nm in ("back", "front"):
            return (v[1], self.arith("-", self.size(v[1], env), ("i", 1)) if nm == "back" else ("i", 0))
        if v[0] == "fit" and u.get("op") == "*":
            return (v[1], v[2])
        return None

    def assign(self, n, args, env):
        v = args[1]
        el = self.elem_of(n["a"][0], env)
        if el is not None:
            return [(v, self.replace(el[0], el[1], v, env))], []
        key = self.lkey(n["a"][0])
        return [(v, env.put(key, v) if key is not None else env)], []

    def swap_elem(self, n, nm, obj, args, env):
        el = self.elem_of(n["obj"], env)
        if nm == "reset":
            if el is not None:
                return [(TOP, self.replace(el[0], el[1], args[0] if args else TOP, env))], []
            key = self.lkey(n["obj"])
            return [(TOP, env.put(key, args[0] if args else TOP) if key is not None else env)], []
        other = self.elem_of(n["a"][0], env)
        return self.swapping(el, other, self.lkey(n["obj"]), self.lkey(n["a"][0]), obj, args[0], env)

    def swap2(self, n, args, env):
        if args[0][0] in ("frames", "look") and args[1][0] == args[0][0]:
            return self.swap_containers(args[0], args[1], env)
        a, b = self.elem_of(n["a"][0], env), self.elem_of(n["a"][1], env)
        return self.swapping(a, b, self.lkey(n["a"][0]), self.lkey(n["a"][1]), args[0], args[1], env)

    def swapping(self, a, b, ka, kb, va, vb, env):
        if a is not None and b is not None:
            for o in sorted({a[0], b[0]}):
                env = self.shifted(o, env)
            return [(TOP, env)], []
        if a is not None or b is not None:
            el, k, v = (a, kb, vb) if a is not None else (b, ka, va)
            old = self.at(el[0], el[1], env)
            env = self.replace(el[0], el[1], v, env)
            return [(TOP, env.put(k, old) if k is not None else env)], []
        if ka is not None and kb is not None:
            env = env.put(ka, vb).put(kb, va)
        return [(TOP, env)], []

    def swap_containers(self, x, y, env):
        (o1, o2) = (x[1], y[1])
        if x[0] == "frames":
            a, b = self.state(o1, env), self.state(o2, env)
            env = self.upd(o1, env, f=("from", o2), at=(), gone=(), ent=(), rem=frozenset())
            env = self.upd(o2, env, f=("from", o1), at=(), gone=(), ent=(), rem=frozenset())
            # nothing else moved yet
            return [(TOP, env)], []
        if x[2] != y[2]:
            return [(TOP, env)], []
        env = self.upd(o1, env, look=self.state(o1, env).setmode(x[2], ("from", o2)))
        env = self.upd(o2, env, look=self.state(o2, env).setmode(x[2], ("from", o1)))
        return [(TOP, env)], []

    def on_frames(self, n, o, nm, op, args, env):
        s = self.state(o, env)

        def one(v, e=None):
            return [(v, env if e is None else e)], []
        if nm in ("push_back", "emplace_back"):
            e = self.append(o, args[0] if args else TOP, env)
            return one(self.at(o, self.arith("-", self.size(o, e), ("i", 1)), e), e)
        if nm in ("size",):
            return one(self.size(o, env))
        if nm == "empty":
            return one(TOP if s.f != "empty" else T if s.off == 0 else F)
        if op == "[]" or nm == "at":
            return one(self.at(o, args[0], env))
        if nm == "back":
            return one(self.at(o, self.arith("-", self.size(o, env), ("i", 1)), env))
        if nm == "front":
            return one(self.at(o, ("i", 0), env))
        if nm in ("begin", "cbegin"):
            return one(("fit", o, ("i", 0)))
        if nm in ("end", "cend"):
            return one(("fit", o, self.size(o, env)))
        if nm in ("reserve", "shrink_to_fit", "capacity", "max_size", "data", "rbegin", "rend", "crbegin", "crend", "get_allocator"):
            return one(TOP)
        if nm == "clear":
            self.events.add("clear")
            looks = tuple((L, m if m == "empty" else "stale") for L, m in s.look)
            return one(TOP, self.upd(o, env, f="empty", off=0, ep=s.ep + 1, at=(), gone=(), ent=(), rem=frozenset(), look=looks))
        if nm in ("insert", "emplace"):
            if args and args[0] == ("fit", o, self.size(o, env)) and len(args) == 2:
                e = self.append(o, args[1], env)
                return one(("fit", o, self.arith("-", self.size(o, e), ("i", 1))), e)
            return one(("fit", o, ("sym", "inserted")), self.shifted(o, env))
        if nm == "swap" and args and args[0][0] == "frames":
            return self.swap_containers(("frames", o), args[0], env)
        if op == "=":
            if args and args[0][0] == "frames" and args[0][1] != o:
                return one(TOP, self.upd(o, env, f=("from", args[0][1]), at=(), gone=(), ent=(), rem=frozenset()))
            return one(TOP, self.shifted(o, env))
        if op in ("==", "!="):
            return one(TOP)
        if n.get("const"):
            return one(TOP)
        return one(("fit", o, ("sym", nm)), self.shifted(o, env))

    def on_look(self, n, o, L, nm, op, args, env):
        s = self.state(o, env)

        def one(v, e=None):
            return [(v, env if e is None else e)], []
        if nm in ("push_back", "emplace_back", "insert", "emplace") and args:
            vals = args
            if nm in ("insert", "emplace") and args[0][0] in ("hit", "end"):
                vals = args[1:]
            return one(TOP, self.add(o, L, vals, env))
        if nm == "clear":
            ent = tuple(e for e in s.ent if e[0] != L)
            return one(TOP, self.upd(o, env, look=s.setmode(L, "empty"), ent=ent, rem=frozenset(r for r in s.rem if r[0] != L)))
        if nm in ("begin", "cbegin"):
            return one(("hit", o, L, (), False))
        if nm in ("end", "cend"):
            return one(("end", o, L))
        if nm == "find" and args:
            return one(("hit", o, L, (("first", args[0]),), False))
        if nm == "erase" and args:
            h = args[0]
            if h[0] == "hit":
                cond = h[3] or tuple(env.get(("cond", o, L), ()))
                e = env
                if not h[4] and env.get(("found", h)) is not True and self.shape.looks[L][0] != "pos" and not env.get(("cond", o, L)):
                    e = self.say(o, e, "%s erases what it looked for without checking that it was found" % L)
                return one(TOP, self.drop(o, L, cond, e))
            return one(TOP, self.upd(o, env, look=s.setmode(L, "stale")))
        if nm == "swap" and args and args[0][0] == "look":
            return self.swap_containers(("look", o, L), args[0], env)
        if op == "=":
            if args and args[0][0] == "look" and args[0][1] != o:
                return one(TOP, self.upd(o, env, look=s.setmode(L, ("from", args[0][1]))))
            return one(TOP, self.upd(o, env, look=s.setmode(L, "stale")))
        if n.get("const") or nm in ("size", "empty", "front", "back", "at", "count", "reserve", "equal_range", "data") or op in ("[]", "==", "!="):
            if op == "[]" and "map" in (n.get("f") or ""):
                return one(TOP, self.upd(o, env, look=s.setmode(L, "stale")))
            return one(TOP)
        return one(TOP, self.upd(o, env, look=s.setmode(L, "stale")))

    def condition(self, lam, env):
        """Comparisons a predicate makes on the parts of an entry."""
        e = self.lambdas.get(lam[1]) if lam[0] == "lambda" else None
        if e is None:
            return ()
        fn = e["fn"]
        fn = fn if isinstance(fn, dict) else self.prog.by_usr.get(fn)
        if isinstance(fn, list):
            fn = fn[0]
        if fn is None or fn.get("body") is None or not fn["ps"]:
            return ()
        pid = fn["ps"][0]["id"]
        out = []

        def side(x):
            x = uncast(x)
            if x is not None and x["k"] == "mem" and uncast(x["b"]) is not None and uncast(x["b"])["k"] == "var" and uncast(x["b"]).get("id") == pid:
                return x["n"]
            return None

        def conj(x):
            x = uncast(x)
            if x is None:
                return
            if x["k"] == "bin" and x["op"] == "&&":
                conj(x["a"])
                conj(x["b"])
                return
            if x["k"] == "bin" and x["op"] == "==" or x["k"] == "call" and x.get("op") == "==":
                a, b = (x["a"], x["b"]) if x["k"] == "bin" else (x["a"][0], x["a"][1])
                m, w = (side(a), b) if side(a) else (side(b), a)
                if m:
                    vs, _ = self.ev(w, env)
                    if len(vs) == 1:
                        out.append((m, vs[0][0]))
        for s in walk(fn["body"]):
            if s.get("k") == "return" and s.get("e") is not None:
                conj(s["e"])
        return tuple(out)

    def relate(self, op, a, b, env):
        """Comparisons that tell something: outcomes [(value, env)] or None."""
        if op not in ("==", "!="):
            return None
        yes, no = (T, F) if op == "==" else (F, T)
        if "end" in (a[0], b[0]) and "hit" in (a[0], b[0]):
            h = a if a[0] == "hit" else b
            o, L = h[1], h[2]
            cond = h[3]
            gone = env
            if cond and any(m == "second" or m == "first" and self.shape.looks[L][0] == "typed" for m, v in cond):
                gone = self.drop(o, L, cond, env)
            elif not cond:
                for c in env.get(("not", o, L), ()):
                    gone = self.drop(o, L, (c,), gone)
                if not env.get(("not", o, L)):
                    gone = gone.put(("void", o, L), True)
            return [(yes, gone), (no, env.put(("found", h), True))]
        ids = {a[0], b[0]}
        if "idlit" in ids and ids & {"idof", "key"} or ids == {"key", "idof"}:
            lit, x = (a, b) if a[0] == "idlit" else (b, a)
            if lit[0] != "idlit":
                return None
            c = next((c for c, s in self.ids.items() if s == lit[1] and self.shape.is_frame(self.prog, c)), None)
            if x[0] == "key":
                eq = env.get("#eq", frozenset())
                return [(yes, env.put("#eq", eq | {(x, lit[1])})), (no, env)]
            t = x[1]
            cls, nots, keys, ext = self.info(t, env)
            if c is None:
                return [(yes, env.put(("T", t), (cls, nots | {k[1] for k in self.shape.looks.values() if k[0] == "typed"}, keys | {lit}, ext))), (no, env)]
            y, n_ = self.split(x, c, env)
            out = []
            if y is not None:
                out.append((yes, y))
            if n_ is not None:
                out.append((no, n_))
            return out
        if a[0] == "hit" or b[0] == "hit":
            return None
        if a[0] == "fit" and b[0] == "fit":
            r = self.compare("==", a[2], b[2])
            if r is not None:
                return [(yes if r else no, env)]
        return None

    def truth(self, v):
        if v[0] == "tok":
            return True
        return Interp.truth(self, v)

    def compare(self, op, a, b):
        if a[0] == "obj" and b[0] == "obj" and op in ("==", "!="):
            if a == b:
                return op == "=="
            return None
        if {a[0], b[0]} == {"tok", "nil"} and op in ("==", "!="):
            return op == "!="
        if a == b and a[0] in ("sym", "idx", "each", "tok"):
            return op in ("==", "<=", ">=")
        return Interp.compare(self, op, a, b)

    def refine(self, u, env, truth):
        # two names for the same tag: what was done to one was done to the other
        if u["k"] == "bin" and u["op"] in ("==", "!="):
            vs = []
            for x in (u["a"], u["b"]):
                outs, _ = self.ev(x, env)
                vs.append(outs[0][0] if len(outs) == 1 else TOP)
            if vs[0][0] == "obj" and vs[1][0] == "obj":
                if truth == (u["op"] == "=="):
                    a, b = sorted((vs[0][1], vs[1][1]), key=len)
                    env = env.put(("S", b), start(self.shape))
                return env
            for x, y in ((u["a"], u["b"]), (u["b"], u["a"])):
                m = uncast(x)
                if m is not None and m["k"] == "mem" and m["n"] in ("first", "second"):
                    bo, _ = self.ev(m["b"], env)
                    ov, _ = self.ev(y, env)
                    if len(bo) == 1 and bo[0][0][0] == "hit" and len(ov) == 1:
                        h = bo[0][0]
                        c = (m["n"], ov[0][0])
                        if truth == (u["op"] == "=="):
                            return env.put(("cond", h[1], h[2]), (c,))
                        return env.put(("not", h[1], h[2]), tuple(sorted({c} | set(env.get(("not", h[1], h[2]), ())), key=str)))
        return env

    def arith(self, op, a, b):
        if a[0] == "idx" and b[0] == "i" and op in ("+", "-"):
            return a[:3] + (a[3] + (b[1] if op == "+" else -b[1]),)
        if a[0] == "i" and b[0] == "idx" and op == "+":
            return b[:3] + (b[3] + a[1],)
        if a[0] == "fit" and op in ("+", "-"):
            if b[0] == "fit":
                return self.arith("-", a[2], b[2]) if op == "-" else TOP
            return a[:2] + (self.arith(op, a[2], b),)
        if b == ("i", 0) and op in ("+", "-"):
            return a
        if a == ("i", 0) and op == "+":
            return b
        if a[0] == "hit":
            return a
        if a[0] in ("sym", "each") and b[0] in ("sym", "each", "i", "idx"):
            return ("sym", "(%s %s %s)" % (a[1], op, b[1]))
        return Interp.arith(self, op, a, b)

    # -- loops over all frames ------------------------------------------------------
    def bumped(self, s):
        """Variables a loop moves on by one each time."""
        out = set()
        for x in walk(s):
            if x.get("k") == "un" and x["op"] in ("++", "p++") and self.lkey(x["e"]) is not None:
                out.add(self.lkey(x["e"]))
            if x.get("k") == "call" and x.get("op") == "++" and x["a"] and self.lkey(x["a"][0]) is not None:
                out.add(self.lkey(x["a"][0]))
            if x.get("k") == "bin" and x["op"] == "+=" and const(x["b"]) == 1 and self.lkey(x["a"]) is not None:
                out.add(self.lkey(x["a"]))
        return out

    def whole(self, s, env):
        """The object whose frames a loop visits one by one, from the first to the last."""
        bump = self.bumped(s)
        c = uncast(s["c"]) if s.get("c") is not None else None
        if c is None:
            return None
        if c["k"] == "bin" and c["op"] in ("<", "!=", ">"):
            a, b = c["a"], c["b"]
        elif c["k"] == "call" and c.get("op") in ("!=", "<") and len(c["a"]) == 2:
            a, b = c["a"]
        else:
            return None
        for x, y in ((a, b), (b, a)):
            k = self.lkey(x)
            while uncast(x) is not None and uncast(x)["k"] == "ctor" and len(uncast(x)["a"]) == 1:
                x = uncast(x)["a"][0]
                k = self.lkey(x)
            if k is None or k not in bump or k not in env:
                continue
            outs, _ = self.ev(y, env)
            if len(outs) != 1:
                continue
            v, i = outs[0][0], env[k]
            if i == ("i", 0):
                # up to size()
                for z in walk(y):
                    if z.get("k") == "call" and (z.get("f") or "").split("::")[-1] == "size" and z.get("obj") is not None:
                        ov, _ = self.ev(z["obj"], env)
                        if len(ov) == 1 and ov[0][0][0] == "frames":
                            return ov[0][0][1]
                if v[0] == "idx" and v[2] == self.state(v[1], env).ep and v[3] == self.state(v[1], env).off:
                    return v[1]
            if i[0] == "fit" and v[0] == "fit" and i[1] == v[1] and i[2] == ("i", 0) and v[2] == self.size(v[1], env):
                return v[1]
        return None

    def loop(self, s, env):
        if s["k"] in ("for", "while"):
            pre = Res([env])
            if s["k"] == "for" and s.get("init"):
                pre = self.st(s["init"], env)
            o = Res()
            o.take(pre)
            for (x,) in pre.n:
                w = self.whole(s, x)
                if w is None:
                    q = Interp.loop(self, dict(s, init=None), x)
                    o.n += q.n
                else:
                    stmts = [s["s"]]
                    if s["k"] == "for" and s.get("inc") is not None:
                        stmts.append(s["inc"])
                    q = self.each(w, stmts, self.bumped(s), x, None)
                    o.n += q.n
                o.take(q, "rt")
            return o
        return Interp.loop(self, s, env)

    def rfor(self, s, env):
        outs, th = self.ev(s["r"], env)
        o = Res()
        o.t += th
        for v, x in outs:
            if v[0] == "frames":
                q = self.each(v[1], [s["s"]], self.bumped(s["s"]), x, s["v"])
            elif v[0] == "look":
                q = Res([x])
                for p in (("hit", v[1], v[2], (), False),):
                    b = self.seq([s["s"]], [(x.put(s["v"]["id"], p),)])
                    q.n += b.n + b.c + b.b
                    q.take(b, "rt")
            else:
                q = Interp.rfor(self, s, x)
            o.n += q.n
            o.take(q, "rt")
        return o

    def each(self, w, stmts, bump, env, var):
        """A loop over all frames of w: the body is interpreted once, for an arbitrary frame."""
        s0 = self.state(w, env)
        pos = ("each", w, s0.ep)
        x = env
        for k in bump:
            v = x.get(k)
            if v == ("i", 0):
                x = x.put(k, pos)
            elif v is not None and v[0] == "fit":
                x = x.put(k, ("fit", w, pos))
        t = "each:%s:%d" % (w, s0.ep)
        x = x.put(("S", w), s0.but(at=s0.at + ((pos, t),)))
        if var is not None:
            x = x.put(var["id"], ("tok", t)).put(("E", var["id"]), (w, pos))
        b = self.seq(stmts, [(x,)])
        o = Res()
        o.take(b, "rt")
        ends = [y for (y,) in b.n + b.c + b.b]
        modes = dict(s0.look)
        own = set()
        for y in ends:
            s = self.state(w, y)
            if s.f != s0.f or s.off != s0.off or s.ep != s0.ep or s.gone != s0.gone:
                own.add(y.key())
            for L, (kind, c) in self.shape.looks.items():
                mine = [e for e in s.ent if e not in s0.ent and e[0] == L]
                need = True if kind == "pos" else self.isa(t, c, y)
                if s0.f == "empty" and s0.off == 0:
                    continue
                if s0.mode(L) == "empty" and s.mode(L) == "empty":
                    good = need is False and not mine or need is True and len(mine) == 1 and (
                        (kind == "pos" or mine[0][1] == t) and (kind == "ptr" or mine[0][2] == pos) and (kind == "typed" or mine[0][3] is None or self.key_ok(t, mine[0][3], y)))
                    if not good:
                        modes[L] = "wrong" if mine else "gap"
                    elif modes[L] == "empty":
                        modes[L] = "filling"
                elif s.mode(L) != s0.mode(L) or mine or any(r not in s0.rem for r in s.rem if r[0] == L):
                    modes[L] = "stale"
        if b.b or b.r:
            modes = {L: "stale" if m in ("filling",) else m for L, m in modes.items()}
        if own:
            # the loop edits the list it walks: one round decides
            res = []
            for y in ends:
                s = self.state(w, y)
                y = y.put(("S", w), s.but(at=tuple(p for p in s.at if p[1] != t)))
                res.append(y)
            o.n += [(y,) for y in res + [env]]
            return o
        final = {}
        for L, m in modes.items():
            final[L] = ("re", frozenset(x for p, x in s0.at), frozenset(s0.gone)) if m == "filling" else s0.mode(L) if m in ("gap", "filling") else "stale" if m == "wrong" else m
            if m == "filling" and not any(e[0] == L for y in ends for e in self.state(w, y).ent):
                final[L] = s0.mode(L)
        # other tags, by one round
        base = {}
        for y in ends + [env]:
            z = Env({k: v for k, v in y.items() if not (isinstance(k, tuple) and k and k[0] == "T" and k[1] == t)})
            for k in bump:
                z[k] = TOP
            if var is not None:
                z.pop(var["id"], None)
            z[("S", w)] = s0.but(look=tuple(sorted(final.items(), key=str)))
            base[z.key()] = z
        o.n += [(z,) for z in base.values()]
        return o


def mentions(shape, f):
    for x in fn_nodes(f):
        if x.get("k") == "mem" and (x["n"] == shape.frames or x["n"] in shape.looks):
            return True
    return False


def id_literals(prog, shape):
    """Frame class -> the identifier its constructors give it."""
    out = {}
    for f in prog.fns:
        if f.get("ctor") and f.get("cls") and shape.is_frame(prog, f["cls"]) and not f.get("cpc") and not f.get("mvc"):
            lits = {y["v"] for i in f.get("inits", ()) if i.get("e") is not None and not i.get("m") for y in walk(i["e"]) if y.get("k") == "str" and len(y["v"]) in (3, 4)}
            if len(lits) == 1:
                out.setdefault(f["cls"], set()).update(lits)
    return {c: next(iter(s)) for c, s in out.items() if len(s) == 1}


def static_ids(f):
    out = {}
    for x in fn_nodes(f):
        if x.get("k") == "decl":
            for d in x["d"]:
                if d.get("i") is not None and "frame_id" in (d["t"].deref().rec or ""):
                    ls = [y["v"] for y in walk(d["i"]) if y.get("k") == "str"]
                    if len(ls) == 1:
                        out[d["id"]] = ls[0]
    return out


def check(prog, R):
    R.rule("tables", "each tag class owns a list of frames and tables over it", 3)
    R.rule("in-step", "a function that starts from a tag whose tables match its frames ends with one, on every path", 40)
    R.rule("events", "edits of the list and of the tables seen", 6)
    shapes = {}
    for q, r in prog.recs.items():
        for rec in (r if isinstance(r, list) else [r]):
            s = Shape(prog, rec)
            if s.frames and len(s.looks) >= 2:
                shapes[q] = s
    for q, s in shapes.items():
        kinds = [k for k, c in s.looks.values()]
        if "pos" not in kinds or "ptr" not in kinds or kinds.count("typed") < 3:
            R.bad("tables", q, None, "%s lacks tables by identifier, by text frame or by frame type" % q)
        else:
            R.ok("tables", (q, tuple(sorted(s.looks))))
    fns = paths = 0
    for q, sh in sorted(shapes.items()):
        I = Tags(prog, shapes, id_literals(prog, sh))
        I.shape = sh
        todo = []
        for f in prog.fns:
            c = f.get("cls") or ""
            if f.get("body") is None or f.get("dep") or f.get("const") or not (c == q or c.startswith(q + "::")):
                continue
            if mentions(sh, f):
                todo.append(f)
        helpers, alone, excused = set(), set(), []
        done = set()
        results = []
        work = list(todo)
        while work:
            f = work.pop(0)
            if f["u"] in done:
                continue
            done.add(f["u"])
            I.statics = {}
            for g in todo:
                I.statics.update(static_ids(g))
            env = Env()
            if f.get("ctor") and f.get("cls") == q:
                env[("S", "this")] = start(sh, empty=True)
            args = [I.param(p["n"] or "#%d" % i, p["t"]) for i, p in enumerate(f["ps"])]
            if f.get("ctor") and f.get("cls") != q:
                continue
            try:
                rets, thr = I.run(f, args, env)
            except AnalysisBroken:
                if mentions(sh, f):
                    raise
                # it touches the tables through helpers only, which are then judged by themselves
                alone |= {x.get("fu") for x in fn_nodes(f) if x.get("k") == "call"}
                continue
            fns += 1
            paths += len(rets)
            probs = {}
            for v, x in rets:
                for k in x:
                    if isinstance(k, tuple) and k and k[0] == "S":
                        for m in I.problems(k[1], x):
                            probs.setdefault(m, k[1])
            # a helper is judged where it is used
            callers = [g for g in prog.fns if g["u"] != f["u"] and g.get("body") is not None and (g.get("cls") or "").startswith(q) and any(
                x.get("k") == "call" and x.get("fu") == f["u"] for x in fn_nodes(g))]
            if probs and f.get("acc") == 2 and callers:
                helpers.add(f["n"])
                excused.append((f, probs))
                work += [g for g in callers if g["u"] not in done and not g.get("const")]
                continue
            results.append((f, probs))
        results += [(f, probs) for f, probs in excused if f["u"] in alone and any(m for m in probs)]
        for f, probs in results:
            name = f["n"].replace("scribbu::", "") + "(" + ",".join((p["t"].deref().rec or p["t"].s).split("::")[-1] for p in f["ps"]) + ")"
            name = name.replace(" ", "")
            if not probs:
                R.ok("in-step", name)
            for m in sorted(probs):
                R.bad("in-step", "%s/%s" % (name, m.split(" ")[0] if m.split(" ")[0] in sh.looks else "-".join(m.split(" ")[-3:])), f, "%s: %s" % (name, m))
        R.extra["helpers_" + q.split("::")[-1]] = len(helpers)
        for e in sorted(I.events):
            R.ok("events", (q, e))
    R.extra["functions_interpreted"] = fns
    R.extra["outcomes"] = paths
    R.assumptions.append("a registered frame parser for an identifier other than the specially handled ones does not create frames of the specially handled classes; frames keep their identifier")
