#!/usr/bin/env python3
"""Writes the configurations of the law modules (spec/cfg/)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "cfg")
def s(x): return "{" + ",".join(str(i) for i in x) + "}"
def law(name, vals, n, invs, tv=None, tn=None):
    for suf, v, k in (("", vals, n), (".thorough", tv or vals, tn or n)):
        open(os.path.join(D, "MC_%s%s.cfg" % (name, suf)), "w").write("SPECIFICATION Spec\nCONSTANTS\n  Vals = %s\n  Off = %d\n  N = %d\nINVARIANTS TypeOK %s\nCHECK_DEADLOCK FALSE\n" % (s([i - min(v) for i in v]), -min(v), k, " ".join(invs)))
R = lambda a, b: list(range(a, b + 1))
law("C11", R(-60, 60), 2, ["L11", "L11b"], R(-120, 120))
law("C12", [0, 1, 128, 255], 4, ["L12", "L12o"], [0, 1, 2, 127, 128, 255], 4)
law("C13", R(-40, 40), 1, ["L13", "L13b"], R(-500, 500))
law("C14", [0, 1, 2], 6, ["L14", "L14b"], [0, 1, 2, 3])
law("C15", [0, 1, 255], 6, ["L15", "L15b"], [0, 1, 100, 255])
law("C16", [0, 7], 9, ["L16"], [0, 7, 255])
law("C17", [0, 1], 9, ["L17"], [0, 1], 15)
law("C18", [0, 1, 200, 255], 4, ["L18"], [0, 1, 2, 3, 100, 200, 255])
law("C18b", [-32768, -1, 0, 2], 3, ["L18b"], [-32768, -7, -1, 0, 2, 32767])
law("C19", R(0, 6), 4, ["L19"], R(0, 7), 6)
law("C20", [-1, 0, 2], 8, ["L20"], [-1, 0, 1, 2])
law("C22", [0, 1, 2, 127, 128, 254, 255], 3, ["L22"], [0, 1, 2, 3, 50, 84, 85, 86, 127, 128, 129, 200, 253, 254, 255])
law("C24", [-1, 0, 2], 4, ["L24"], [-2, -1, 0, 1, 3, 4])
law("C25", [0, 1, 2, 5], 4, ["L25"], [-3, -1, 0, 1, 2, 5])
law("C32", [0, 1, 255], 6, ["L32"], [0, 1, 100, 255])
law("C33", [0, 1, 100, 127], 4, ["L33"], [0, 1, 2, 63, 100, 127])
law("C34", [-2, -1, 1, 3], 4, ["L34"], [-3, -2, -1, 1, 2, 3, 4])
law("C23", [0, 1, 100, 255], 4, ["L23", "L23b", "L23d"], [0, 1, 2, 100, 128, 255])
law("C23b", R(0, 400), 1, ["L23c"], R(0, 3000))
law("C26", [0, 1], 6, ["L26"], [0, 1], 9)
law("C27", [-1, 0, 2], 4, ["L27"], [-2, -1, 0, 1], 9)
law("C27b", [-1, 0, 2], 6, ["L27b"], [-2, -1, 0, 1, 3])
law("C28", [0, 3], 6, ["L28"], [0, 1, 255])
law("C29", R(0, 4), 4, ["L29"], R(-2, 6))
law("C30", [-2, 0, 1, 100], 4, ["L30"], [-100, -2, -1, 0, 1, 3, 255])
law("C35", [0, 1], 3, ["L35"], [0, 1], 6)
law("C36", R(-4, 4), 2, ["L36"], R(-12, 12))
law("C37", [0, 1, 255], 6, ["L37"], [0, 1, 255], 9)
def gen(name, kinds, steps=14):
    open(os.path.join(D, "Gen_%s.cfg" % name), "w").write("SPECIFICATION GenSpec\nCONSTANTS\n  Kinds = {%s}\n  Steps = %d\nCHECK_DEADLOCK FALSE\n" % (",".join('"%s"' % k for k in kinds), steps))
gen("C12", ["thresh", "colour"]); gen("C13", ["border", "flip"]); gen("C14", ["flip", "trans", "border"]); gen("C15", ["gauss", "lap", "sobel", "border"]); gen("C16", ["rank", "integral"])
gen("C17", ["morph", "thresh"]); gen("C22", ["colour", "flip"]); gen("C32", ["pyr", "gauss"])
gen("Proc", ["flip", "trans", "border", "thresh", "lap", "sobel", "rank", "integral", "gauss", "pyr", "colour", "morph"], 20)
