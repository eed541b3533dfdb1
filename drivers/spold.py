"""Ecospold 2 documents from plain descriptions.

A description uses the file's own vocabulary (attribute values as text), so
what extraction has to deliver is stated in the specification and not here.
"""
from xml.sax.saxutils import escape, quoteattr

NS = "http://www.EcoInvent.org/EcoSpold02"


def attrs(pairs):
    return "".join(" %s=%s" % (k, quoteattr(v)) for k, v in pairs if v is not None)


def el(tag, text, lang=False):
    return "<%s%s>%s</%s>" % (tag, ' xml:lang="en"' if lang else "", escape(text), tag)


def unc(u, tag="uncertainty"):
    out = "<%s><%s%s />" % (tag, u["type"], attrs(u["values"]))
    if u.get("ped"):
        keys = ("reliability", "completeness", "temporalCorrelation", "geographicalCorrelation", "furtherTechnologyCorrelation")
        out += "<pedigreeMatrix%s />" % attrs(zip(keys, map(str, u["ped"])))
    if u.get("comment"):
        out += el("comment", u["comment"])
    return out + "</%s>" % tag


def prop(p):
    out = "<property%s>" % attrs([("propertyId", p["id"]), ("variableName", p.get("var")), ("amount", p["amount"]),
                                  ("mathematicalRelation", p.get("formula"))])
    out += el("name", p["name"], True)
    if p.get("unit") is not None:
        out += el("unitName", p["unit"], True)
    if p.get("unc"):
        out += unc(p["unc"])
    return out + "</property>"


def classification(system, value):
    return "<classification>%s%s</classification>" % (el("classificationSystem", system), el("classificationValue", value))


def exchange(e):
    tag = e["tag"]
    out = "<%s%s>" % (tag, attrs([
        ("id", e["id"]), ("variableName", e.get("var")), ("amount", e["amount"]), ("mathematicalRelation", e.get("formula")),
        ("activityLinkId", e.get("link")), ("productionVolumeAmount", e.get("pv")),
        ("productionVolumeVariableName", e.get("pvvar")), ("productionVolumeMathematicalRelation", e.get("pvformula"))]))
    out += el("name", e["name"], True) + el("unitName", e["unit"], True)
    if e.get("comment"):
        out += el("comment", e["comment"])
    if e.get("xmlcomment"):
        out += "<!-- %s -->" % e["xmlcomment"]
    if e.get("unc"):
        out += unc(e["unc"])
    for p in e.get("props", []):
        out += prop(p)
    if e.get("pvunc"):
        out += unc(e["pvunc"], "productionVolumeUncertainty")
    for system, value in e.get("classes", []):
        out += classification(system, value)
    if e.get("comp"):
        out += "<compartment>%s%s</compartment>" % (el("compartment", e["comp"][0], True), el("subcompartment", e["comp"][1], True))
    out += "<%s>%s</%s>" % (e["group"][0], e["group"][1], e["group"][0])
    return out + "</%s>" % tag


def parameter(p):
    out = "<parameter%s>" % attrs([("parameterId", p["id"]), ("variableName", p.get("var")),
                                   ("mathematicalRelation", p.get("formula")), ("amount", p["amount"])])
    out += el("name", p["name"], True)
    if p.get("unit") is not None:
        out += el("unitName", p["unit"], True)
    if p.get("unc"):
        out += unc(p["unc"])
    return out + "</parameter>"


def dataset(d):
    out = "<%s><activityDescription>" % d.get("root", "activityDataset")
    out += "<activity%s>%s</activity>" % (attrs([("id", d["id"]), ("specialActivityType", d.get("type", "0")), ("parentActivityId", d.get("parent"))]),
                                          el("activityName", d["name"], True))
    for system, value in d.get("classes", [("ISIC rev.4 ecoinvent", "2011")]):
        out += classification(system, value)
    out += "<geography>%s</geography>" % el("shortname", d.get("location", "GLO"), True)
    out += "<technology%s></technology>" % attrs([("technologyLevel", d.get("level", "3"))])
    out += "<timePeriod%s />" % attrs([("startDate", d.get("start", "2000-01-01")), ("endDate", d.get("end", "2015-12-31"))])
    out += "<macroEconomicScenario>%s</macroEconomicScenario></activityDescription>" % el("name", d.get("scenario", "Business-as-Usual"), True)
    body = [exchange(e) for e in d["exchanges"]] + [parameter(p) for p in d.get("parameters", [])]
    if d.get("xmlcomment"):
        body.insert(d["xmlcomment"][0] % (len(body) + 1), "<!-- %s -->" % d["xmlcomment"][1])
    out += "<flowData>" + "\n".join(body) + "</flowData>"
    out += "<administrativeInformation><dataEntryBy%s /><dataGeneratorAndPublication%s /></administrativeInformation>" % (
        attrs([("personName", d.get("entry", "A. Entry"))]),
        attrs([("personName", d.get("author", "B. Author")), ("accessRestrictedTo", d.get("access", "0"))]))
    return out + "</%s>" % d.get("root", "activityDataset")


def document(ds, bom=False):
    ds = ds if isinstance(ds, list) else [ds]
    return ("\ufeff" if bom else "") + '<?xml version="1.0" encoding="utf-8"?>\n<ecoSpold xmlns="%s">\n%s\n</ecoSpold>\n' % (NS, "\n".join(map(dataset, ds)))


def simple(name, id_, amount="1", product=None, location="GLO", extra=()):
    """A minimal transforming activity."""
    return {"id": id_, "name": name, "location": location,
            "exchanges": [{"tag": "intermediateExchange", "id": id_ + "-rp", "name": product or name, "unit": "kg", "amount": amount,
                           "group": ("outputGroup", "0"), "pv": "10", "classes": [("By-product classification", "allocatable product")]}] + list(extra)}
