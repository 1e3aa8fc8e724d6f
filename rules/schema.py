"""Wire schema of the segment metadata, read off the prost implementations."""
import json, os
from core import VERIF

BASE = os.path.join(VERIF, "schema_baseline.json")
MSG = "prost::message::Message"


def def_of(b, local):
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] == "=" and s[1][0] == local and not s[1][1]:
                return s[2]
    return None


def field_path(b, o, depth=0):
    """names of the field projections a reference operand denotes"""
    if depth > 12 or not o or o[0] not in "cm":
        return None
    p = o[1]
    names = [e[2] for e in p[1] if e[0] == "f"]
    if p[0] == 1:
        return names
    d = def_of(b, p[0])
    if d is None:
        return None
    if d[0] in ("ref", "reborrow"):
        q = d[2]
        sub = field_path(b, ["c", [q[0], []]], depth + 1) if q[0] != 1 else []
        if sub is None:
            return None
        return sub + [e[2] for e in q[1] if e[0] == "f"] + names
    if d[0] == "use":
        sub = field_path(b, d[1], depth + 1)
        return None if sub is None else sub + names
    return None


def extract(P):
    """{message: {tag: {"field":..., "codec":...}}}, {enum: {variant: number}}"""
    msgs, enums, oneofs = {}, {}, {}
    for p, b in P.bodies.items():
        if p.endswith("::encode_raw") and (" as %s>" % MSG) in p:
            name = p[1:].split(" as ")[0].split("::")[-1]
            m = msgs.setdefault(name, {})
            for _i, fn, args, span, _d, _t in P.calls(b):
                c = fn and (fn.get("res") or fn["path"])
                tag = tag_arg(args) if c and c.startswith("prost::encoding::") else None
                if tag is not None:
                    fld = None
                    for a in args:
                        fp = field_path(b, a)
                        if fp:
                            fld = fp[0]
                            break
                    m[str(tag)] = {"field": fld, "codec": c[len("prost::encoding::"):], "type": msg_arg(P, fn, args)}
                elif c and c.endswith("::encode") and fn.get("res_local", fn.get("local")):
                    fld = field_path(b, args[0])
                    oneofs.setdefault(name, []).append(c)
        # oneof enums: `encode` inherent method with tag constants per variant
    for p, b in P.bodies.items():
        if p.endswith("::encode") and "segment_metadata" in p and not p.startswith("<"):
            name = p.split("::")[-3] + "." + p.split("::")[-2]
            m = msgs.setdefault(name, {})
            sw = variant_of_block(b, P)
            for i, fn, args, span, _d, _t in P.calls(b):
                c = fn and (fn.get("res") or fn["path"])
                tag = tag_arg(args) if c and c.startswith("prost::encoding::") else None
                if tag is not None:
                    m[str(tag)] = {"field": sw.get(i), "codec": c[len("prost::encoding::"):], "type": msg_arg(P, fn, args)}
    for a in P.F["adts"]:
        if a["kind"] == "enum" and a.get("local") and "segment_metadata" in a["path"] and all(not v["fields"] for v in a["variants"]):
            enums[a["path"].split("::")[-1]] = {v["name"]: v["discr"] for v in a["variants"]}
    return msgs, enums


def tag_arg(args):
    for a in args:
        if a[0] == "k" and "int" in a[1]:
            return a[1]["int"]
    return None


def msg_arg(P, fn, args=()):
    # codecs of the keys and values of a map
    fns = [a[1]["fn"].get("path") for a in args if a[0] == "k" and isinstance(a[1].get("fn"), dict)]
    if fns:
        return " ".join(f.replace("prost::encoding::", "") for f in fns) + " " + str([P.types[x][1].split("::")[-1] for a in args if a[0] == "k" and isinstance(a[1].get("fn"), dict) for x in a[1]["fn"].get("args", []) if isinstance(x, int) and P.types[x][0] == "adt"])
    for a in fn.get("res_args") or fn.get("args") or []:
        if isinstance(a, int):
            t = P.types[a]
            if t[0] == "adt":
                return t[1].split("::")[-1]
    return None


def variant_of_block(b, P):
    """block -> name of the enum variant matched on every path to it (first down-cast used in or before the block)"""
    out = {}
    for i, bb in enumerate(b["blocks"]):
        names = set()
        for s in bb["s"]:
            if s[0] == "=":
                txt = json.dumps(s[2])
                import re
                for m in re.finditer(r'\["d", ?\d*,? ?"(\w+)"', txt):
                    names.add(m.group(1))
        if len(names) == 1:
            out[i] = names.pop()
    # propagate forward over gotos
    ch = True
    while ch:
        ch = False
        for i in list(out):
            for j in P.succs(b, i):
                if j not in out and len([x for x in range(len(b["blocks"])) if j in P.succs(b, x)]) == 1:
                    out[j] = out[i]
                    ch = True
    return out


def merge_tags(P):
    """{message: {tag: field}} as decoded by merge_field"""
    res = {}
    for p, b in P.bodies.items():
        if p.endswith("::merge_field") and (" as %s>" % MSG) in p:
            name = p[1:].split(" as ")[0].split("::")[-1]
            m = res.setdefault(name, {})
            # the switch on the tag argument (local 2)
            for i, bb in enumerate(b["blocks"]):
                t = bb["t"]
                if t[0] == "switch" and not bb["cleanup"]:
                    d = t[1]
                    if d[0] in "cm" and (d[1][0] == 2 or is_copy_of(b, d[1][0], 2)):
                        for val, tgt in t[2]:
                            f = first_field(P, b, tgt)
                            m[str(val)] = f
    return res


def is_copy_of(b, l, src):
    d = def_of(b, l)
    return bool(d and d[0] == "use" and d[1][0] in "cm" and d[1][1][0] == src)


def first_field(P, b, start):
    seen, work = set(), [start]
    while work:
        x = work.pop(0)
        if x in seen:
            continue
        seen.add(x)
        for s in b["blocks"][x]["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "reborrow"):
                fs = [e[2] for e in s[2][2][1] if e[0] == "f"]
                if fs and (s[2][2][0] == 1 or field_path(b, ["c", [s[2][2][0], []]]) is not None):
                    return fs[0]
        if b["blocks"][x]["t"][0] != "switch":
            work.extend(P.succs(b, x))
    return None


def s01(ctx):
    P = ctx.P
    ctx.rule("tag, field and codec of every metadata message field are read off its prost encode_raw; each must equal the recorded wire "
             "schema (new fields may be added on unused tags), merge_field must decode the same tag into the same field, "
             "and the enum numbers must not move")
    msgs, enums = extract(P)
    base = json.load(open(BASE))
    for m, fields in base["messages"].items():
        if m not in msgs:
            ctx.bad("schema", m, "metadata message %s no longer exists" % m)
            continue
        for tag, d in fields.items():
            got = msgs[m].get(tag)
            if got is None:
                ctx.bad("schema", m + "." + str(d["field"]), "tag %s (%s) of %s is not encoded any more" % (tag, d["field"], m))
            else:
                ctx.check(got == d, "schema", m + "." + str(d["field"]),
                          "tag %s of %s is %s, segments on disk use %s" % (tag, m, got, d))
        used = {d["field"] for d in fields.values()}
        for tag, got in msgs[m].items():
            if tag not in fields:
                ctx.check(got["field"] not in used, "schema", m + "." + str(got["field"]),
                          "field %s of %s moved to tag %s" % (got["field"], m, tag))
    mt = merge_tags(P)
    n = 0
    for m, fields in msgs.items():
        if "." in m or m not in mt:
            continue
        for tag, d in fields.items():
            n += 1
            g = mt[m].get(tag)
            ctx.check(g == d["field"], "decode-agrees", m + "." + str(d["field"]),
                      "tag %s of %s is written from %s and read into %s" % (tag, m, d["field"], g))
    for e, vs in base["enums"].items():
        for v, num in vs.items():
            got = enums.get(e, {}).get(v)
            ctx.check(got == num, "enum", e + "." + v, "%s::%s is %s, segments on disk use %s" % (e, v, got, num))
        nums = list(enums.get(e, {}).values())
        ctx.check(len(nums) == len(set(nums)), "enum", e, "two variants share a number")
    for p in P.bodies:
        if "segment_metadata" in p and ("encode_raw" in p or "merge_field" in p):
            ctx.functions.add(p)
    ctx.stats.update({"messages": len(msgs), "fields": sum(len(x) for x in msgs.values()), "enums": len(enums), "decode_tags": n})
    ctx.samples = [{"message": m, "tag": t, **d} for m, f in sorted(msgs.items()) for t, d in f.items()][:10]


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    from prog import Prog
    P = Prog(json.load(open(sys.argv[1])))
    m, e = extract(P)
    json.dump({"messages": m, "enums": e}, open(sys.argv[2], "w"), indent=1, sort_keys=True)
    print(json.dumps(merge_tags(P), indent=0))
