#!/usr/bin/env python3
"""Writes the TLC configurations of the core model (spec/cfg/): exhaustive quick and thorough, and simulation."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "cfg"); os.makedirs(D, exist_ok=True)
def s(x): return "{" + ",".join('"%s"' % i if isinstance(i, str) else str(i) for i in x) + "}"
def mc(name, ops, handles, dims, types, depth, prop, inv=""):
    open(os.path.join(D, "MC_%s.cfg" % name), "w").write("SPECIFICATION Spec\nCONSTANTS\n  Ops = %s\n  Handles = %s\n  Dims = %s\n  TypesUsed = %s\n  MaxDepth = %d\n  Pick <- All\nCONSTRAINT Bound\nVIEW View\nINVARIANT TypeOK\n%sPROPERTY %s\nCHECK_DEADLOCK FALSE\n" % (s(ops), s(handles), s(dims), s(types), depth, "INVARIANT %s\n" % inv if inv else "", prop))
def gen(name, ops, handles, dims, types, steps):
    open(os.path.join(D, "Gen_%s.cfg" % name), "w").write("SPECIFICATION GenSpec\nCONSTANTS\n  Ops = %s\n  Handles = %s\n  Dims = %s\n  TypesUsed = %s\n  MaxDepth = 99\n  Pick <- One\n  Steps = %d\nCHECK_DEADLOCK FALSE\n" % (s(ops), s(handles), s(dims), s(types), steps))
a, ab, abc = "a", ["a", "b"], ["a", "b", "c"]
O1 = ["create", "delete"]; mc("C01", O1, ab, [0, 1, 2], [1, 4], 3, "P01"); mc("C01.thorough", O1, ab, [0, 1, 2, 3], [1, 4, 6], 4, "P01")
gen("C01", O1, abc, [1, 1, 2, 3, 4], [1, 4], 7)
O2 = ["create", "conv", "convert2", "delete"]; mc("C02", O2, ab, [1, 2, 3], [1], 3, "P02"); mc("C02.thorough", O2, ab, [1, 2, 3], [1], 6, "P02")
gen("C02", O2 + ["copy"], abc, [1, 2, 3, 4], [1, 4], 8)
O3 = ["create", "range"]; mc("C03", O3, ab, [1, 2, 3], [1], 3, "P03"); mc("C03.thorough", O3, abc, [1, 2, 3], [1], 4, "P03")
gen("C03", O3 + ["conv"], abc, [2, 3, 4], [1, 4], 5)
O4 = ["create", "copy", "copyto", "fill", "delete"]; mc("C04", O4, ab, [1, 2], [1, 4], 4, "P04"); mc("C04.thorough", O4, abc, [1, 2], [1], 5, "P04")
gen("C04", O4, abc, [1, 2], [1, 4], 9)
O5 = ["create", "save", "convert2", "delete"]; mc("C05", O5, ab, [1, 2], [1], 4, "P05", "C05Inv"); mc("C05.thorough", O5, ab, [1, 2], [1, 4], 5, "P05", "C05Inv")
gen("C05", O5, ab, [1, 2, 3], [1, 4], 9)
O7 = ["create", "plane"]; mc("C07", O7, ab, [1, 2], [1, 4], 3, "P07"); mc("C07.thorough", O7, abc, [1, 2], [1], 5, "P07")
gen("C07", O7 + ["convert2"], abc, [1, 2, 3], [1], 8)
O8 = ["create", "copy", "conv", "range", "plane", "delete"]; mc("C08", O8, ab, [1, 2], [1], 3, "P08"); mc("C08.thorough", O8, ab, [1, 2], [1, 4], 5, "P08")
gen("C08", O8 + ["convert2", "fill", "save"], abc, [1, 2, 3], [1, 4], 12)

# C++ cube objects
def xmc(name, ops, handles, dims, types, depth):
    open(os.path.join(D, "MC_%s.cfg" % name), "w").write("SPECIFICATION Spec\nCONSTANTS\n  Ops = %s\n  Handles = %s\n  Dims = %s\n  TypesUsed = %s\n  MaxDepth = %d\n  Pick <- All\nCONSTRAINT Bound\nVIEW View\nINVARIANT TypeOK\nINVARIANT P21Inv\nINVARIANT P21Same\nPROPERTY P21\nCHECK_DEADLOCK FALSE\n" % (s(ops), s(handles), s(dims), s(types), depth))
X1, X2, X3 = ["new", "create", "set", "copy"], ["new", "conv", "range"], ["new", "save", "conv"]
xmc("C21", X1, ab, [0, 1, 2], [1, 4], 2); xmc("C21.thorough", X1, ab, [1, 2], [1, 4], 3)
xmc("C21b", X2, ab, [1, 2], [1], 3); xmc("C21b.thorough", X2, ab, [1, 2, 3], [1], 3)
xmc("C21c", X3, ab, [1, 2], [1], 4); xmc("C21c.thorough", X3, ab, [1, 2], [1], 5)
gen("C21", ["new", "create", "set", "copy", "conv", "range", "save"], abc, [1, 2, 3], [1, 4], 12)
