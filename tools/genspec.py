#!/usr/bin/env python3
"""Converts the OCPP 1.6 JSON schemas and the OCPP 1.5 WSDLs to mc/h/gen_spec.go
(run once by hand; the output is committed so that the oracle does not follow
changes made to /repo)."""
import json, glob, os, sys
import xml.etree.ElementTree as ET
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"

def conv(s):
    t = s.get("type")
    if t == "object":
        req = set(s.get("required", []))
        ps = []
        for n, x in s.get("properties", {}).items():
            ps.append({"n": n, "r": n in req, "s": conv(x)})
        # IdTagInfo in the schemas nests two optional properties outside "properties"
        for n in ("expiryDate", "parentIdTag"):
            if n in s and n not in s.get("properties", {}):
                ps.append({"n": n, "r": n in req, "s": conv(s[n])})
        for p in req:
            assert any(p == x["n"] for x in ps), (s, p)
        return {"k": "obj", "p": ps, "x": s.get("additionalProperties") is False}
    if t == "array":
        return {"k": "arr", "i": conv(s["items"])}
    if t == "string":
        if s.get("format") == "date-time": return {"k": "time"}
        if s.get("format") == "uri": return {"k": "uri"}
        r = {"k": "str"}
        if "enum" in s: r["e"] = s["enum"]
        if "maxLength" in s: r["m"] = s["maxLength"]
        return r
    if t == "integer": return {"k": "int"}
    if t == "number":
        r = {"k": "num"}
        if s.get("multipleOf") == 0.1: r["d"] = 1
        return r
    if t == "boolean": return {"k": "bool"}
    raise Exception(s)

js = {}
for f in sorted(glob.glob(repo + "/ws/json/*.json")):
    s = json.load(open(f))
    title = os.path.basename(f)[:-5]
    js[title] = conv(s)

XS = "{http://www.w3.org/2001/XMLSchema}"
ws = {}
for f, svc in (("ocpp_centralsystemservice_1.5_final.wsdl", "Cs"), ("ocpp_chargepointservice_1.5_final.wsdl", "Cp")):
    root = ET.parse(repo + "/soap/wsdl/" + f).getroot()
    sch = root.find(".//" + XS + "schema")
    simple = {e.get("name"): e for e in sch.findall(XS + "simpleType")}
    comp = {e.get("name"): e for e in sch.findall(XS + "complexType")}
    base = {"s:int": {"k": "int"}, "s:string": {"k": "str"}, "s:boolean": {"k": "bool"}, "s:dateTime": {"k": "time"}, "s:anyURI": {"k": "uri"}}
    def typ(name):
        if name in base: return dict(base[name])
        n = name.split(":")[1].replace("RemoteSta1rt", "RemoteStart")  # a typo in the WSDL
        if n in simple:
            r = simple[n].find(XS + "restriction")
            assert r.get("base") == "s:string"
            d = {"k": "str"}
            e = [x.get("value") for x in r.findall(XS + "enumeration")]
            m = r.find(XS + "maxLength")
            if e: d["e"] = e
            if m is not None: d["m"] = int(m.get("value"))
            return d
        return cplx(comp[n])
    def cplx(c):
        ext = c.find(XS + "simpleContent/" + XS + "extension")
        if ext is not None:
            ps = [{"n": "value", "r": True, "s": typ(ext.get("base")), "t": True}]
            for a in ext.findall(XS + "attribute"):
                ps.append({"n": a.get("name"), "r": False, "s": typ(a.get("type")), "a": True})
            return {"k": "obj", "p": ps, "x": True}
        ps = []
        seq = c.find(XS + "sequence")
        for e in (seq.findall(XS + "element") if seq is not None else []):
            s = typ(e.get("type")) if e.get("type") else cplx(e.find(XS + "complexType"))
            mn, mx = e.get("minOccurs", "1"), e.get("maxOccurs", "1")
            if mx == "unbounded": s = {"k": "arr", "i": s}
            else: assert mx == "1"
            p = {"n": e.get("name"), "r": mn != "0", "s": s}
            if e.get("name") == "transactionData":
                # the library sends one transactionData with all the values
                p["w"] = "values"
                p["s"] = s["i"]["p"][0]["s"]
            ps.append(p)
        return {"k": "obj", "p": ps, "x": True}
    for e in sch.findall(XS + "element"):
        if e.get("name") == "chargeBoxIdentity": continue
        ws[svc + " " + e.get("name")] = typ(e.get("type"))

out = ["//go:build go1.22", "", "package main", "",
       "// Code generated by tools/genspec.py from the OCPP 1.6 JSON schemas and the OCPP 1.5 WSDLs. DO NOT EDIT.", "",
       "var jsonSpecText = map[string]string{"]
for k, v in js.items():
    out.append("\t%s: `%s`," % (json.dumps(k), json.dumps(v, separators=(",", ":"))))
out += ["}", "", "var wsdlSpecText = map[string]string{"]
for k, v in ws.items():
    out.append("\t%s: `%s`," % (json.dumps(k), json.dumps(v, separators=(",", ":"))))
out += ["}", ""]
open("/verif/mc/h/gen_spec.go", "w").write("\n".join(out))
print(len(js), len(ws))
