"""Reference serializer: the documented normal form, computed from the JSON tree
with an explicit indentation level."""


def ind(level):
    return " " * (4 * level)


def pattern(p, level):
    els = p["elements"]
    content = ""
    multi = False
    for e in els:
        if e["type"] == "TextElement":
            multi = multi or "\n" in e["value"]
            content += e["value"].replace("\n", "\n" + ind(level))
        else:
            multi = multi or e["expression"]["type"] == "SelectExpression"
            content += placeable(e, level)
    first = els[0] if els else None
    special = first and first["type"] == "TextElement" and first["value"][:1] in ("[", ".", "*")
    if multi and not special:
        return "\n" + ind(level) + content
    return " " + content


def placeable(e, level):
    x = e["expression"]
    if x["type"] == "Placeable":
        return "{" + placeable(x, level) + "}"
    if x["type"] == "SelectExpression":
        out = "{ " + expression(x["selector"], level) + " ->"
        for v in x["variants"]:
            key = v["key"]["name"] if v["key"]["type"] == "Identifier" else v["key"]["value"]
            out += "\n" + ind(level) + ("   *" if v["default"] else "    ") + "[" + key + "]"
            out += pattern(v["value"], level + 2)
        return out + "\n" + ind(level) + "}"
    return "{ " + expression(x, level) + " }"


def expression(x, level):
    t = x["type"]
    if t == "StringLiteral":
        return '"' + x["value"] + '"'
    if t == "NumberLiteral":
        return x["value"]
    if t == "VariableReference":
        return "$" + x["id"]["name"]
    if t == "Placeable":
        return placeable(x, level)
    out = ("-" if t == "TermReference" else "") + x["id"]["name"]
    if x.get("attribute"):
        out += "." + x["attribute"]["name"]
    a = x.get("arguments")
    if a:
        parts = [expression(y, level) for y in a["positional"]]
        parts += [y["name"]["name"] + ": " + expression(y["value"], level) for y in a["named"]]
        out += "(" + ", ".join(parts) + ")"
    return out


def comment(c, hashes):
    return "".join((hashes + " " + line if line else hashes) + "\n" for line in (c["content"] or "").split("\n"))


def entry(e, first):
    t = e["type"]
    if t in ("Message", "Term"):
        out = comment(e["comment"], "#") if e["comment"] else ""
        out += ("-" if t == "Term" else "") + e["id"]["name"] + " ="
        if e["value"]:
            out += pattern(e["value"], 1)
        for a in e["attributes"]:
            out += "\n    ." + a["id"]["name"] + " =" + pattern(a["value"], 2)
        return out + "\n"
    if t == "Junk":
        return e["content"]
    h = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}[t]
    return ("" if first else "\n") + comment(e, h) + "\n"


def serialize(res, with_junk=False):
    out = ""
    first = True
    for e in res["body"]:
        if e["type"] == "Junk" and not with_junk:
            continue
        out += entry(e, first)
        first = False
    return out
