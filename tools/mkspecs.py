#!/usr/bin/env python3
"""Writes the contract and harness boilerplate of the subrecord types (specs/egts/gen_sub.go).
The layouts themselves (VEncX, VDecX, VWfX, VCanonX, VMkX) are written by hand."""
import os
T = [ # short, go type, props, comparable, type code, recursive decode
 ("AbsCntr","SrAbsCntrData","C10",25),
 ("AbsAn","SrAbsAnSensData","C10",24),
 ("Counters","SrCountersData","C10",19),
 ("AdSens","SrAdSensorsData","C10",18),
 ("ExtPos","SrExtPosData","C11",17),
 ("State","SrStateData","C11",21),
 ("Liquid","SrLiquidLevelSensor","C11",27),
 ("TermId","SrTermIdentity","C12",1),
 ("Auth","SrAuthInfo","C12",7),
 ("Module","SrModuleData","C12",2),
 ("Disp","SrDispatcherIdentity","C12",5),
 ("Resp","SrResponse","C12",0),
 ("Result","SrResultCode","C12",9),
]
out=["// Code generated by /verif/tools/mkspecs.py; layouts are in the other files.\n\npackage egts\n"]
for X,G,P,code in T:
    enc = "C09,C10".split(",")[0] if X=="Pos" else P
    gp = P if X!="Pos" else "C08"
    rec = X=="Resp"
    depth = "vDepth = len(b)\n\t" if rec else ""
    reqd = ""
    if rec:
        reqd = '\tvRequire("C01", "nested decoding gets fewer bytes", vDepth < 0 || len(b) < vDepth)\n'
    out.append(f'''
// ---- {G}

//@ contract (*{G}).Decode
func vcDec{X}(r *{G}, b []byte) error {{
	vRequire("", "decoded into a fresh {G}", vEq(*r, {G}{{}}))
{reqd}	w, ok := VDec{X}(b)
	if !ok {{
		vHavoc(r)
		return vErr()
	}}
	*r = w
	return nil
}}

//@ contract (*{G}).Encode
func vcEnc{X}(r *{G}) ([]byte, error) {{
	vRequire("", "encoded {G} is well-formed", VWf{X}(*r))
	return VEnc{X}(*r), nil
}}

//@ contract (*{G}).Length
func vcLen{X}(r *{G}) uint16 {{
	vRequire("", "measured {G} is well-formed", VWf{X}(*r))
	return uint16(len(VEnc{X}(*r)))
}}

func VGen{X}() []byte {{ return VEnc{X}(VMk{X}()) }}

//@ harness props={gp},C14,C01,C20 inline=(*{G}).Decode reveal=VDec{X},VEnc{X}
func VH{X}Decode() {{
	b := vBytes("content", VGen{X})
	vSafety("C01,{gp}")
	vTerminates(true)
	{depth}var s {G}
	err := s.Decode(b)
	w, ok := VDec{X}(b)
	vCover("decode returns")
	vEnsure("C14,{gp}", "{G} is accepted exactly when it is complete", (err == nil) == ok)
	if ok {{
		vCover("accepted")
		vSame("{gp}", "{G}", s, w)
	}}
}}
''')
    if X=="Pos":
        out.append(f'''
//@ harness props=C09,C20,C13 inline=(*SrPosData).Encode,(*SrPosData).Length reveal=VEncPos
func VHPosEncode() {{
	s := VMkPos()
	vSafety("C09")
	in := s
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("C09", "SrPosData can be encoded", err == nil)
	vSame("C09", "encoding of SrPosData", got, VEncPos(s))
	vEnsure("C13", "length of SrPosData", int(s.Length()) == len(got))
	vCover("encoded")
}}
''')
        continue
    out.append(f'''
//@ harness props={enc},C13,C20 inline=(*{G}).Encode,(*{G}).Length reveal=VEnc{X},VDec{X}{",VDecRecords" if rec else ""}
func VH{X}Encode() {{
	s := VMk{X}()
	vSafety("{enc}")
	in := s
	w := VEnc{X}(s)
	got, err := s.Encode()
	vSame("C20", "the value is unchanged", s, in)
	vEnsure("{enc}", "{G} can be encoded", err == nil)
	vSame("{enc}", "encoding of {G}", got, w)
	r, ok := VDec{X}(w)
	vEnsure("{enc}", "{G} decodes back", ok)
	vSame("{enc}", "round trip of {G}", r, VCanon{X}(s))
	n := s.Length()
	vEnsure("C13", "length of {G}", len(w) >= 65536 || int(n) == len(w))
	vCover("encoded")
}}
''')
open(os.path.join(os.path.dirname(__file__),"../specs/egts/gen_sub.go"),"w").write("".join(out))
