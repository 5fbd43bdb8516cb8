#!/usr/bin/env python3
"""Writes ref/tables.inc: the constants of the LC3 / LC3plus specification, taken
from the specification tables of the repository's Python model (test/tables.py,
which the C tables in src/ are not generated from at build time).  The result is
committed; checks never run this script, so a change to the tables in src/ is
compared with the values frozen here.
    /opt/vp/venv/bin/python gen_tables.py /repo/test > tables.inc"""
import sys
sys.path.insert(0, sys.argv[1])
import numpy as np, tables as T
def arr(name, a, ty):
    a = np.asarray(a)
    dims = "".join("[%d]" % d for d in a.shape)
    fmt = (lambda v: "%d" % v) if ty != "double" else (lambda v: "%.10g" % v)
    def rec(x):
        return "{" + ",".join(rec(y) for y in x) + "}" if x.ndim > 0 and x.shape and x.ndim > 1 else "{" + ",".join(fmt(y) for y in x) + "}"
    print("static const %s %s%s = %s;" % (ty, name, dims, rec(a)))
def ragged(name, rows, ty):
    m = max(len(r) for r in rows)
    arr(name, np.array([list(r) + [0] * (m - len(r)) for r in rows]), ty)
    print("static const int %s_LEN[%d] = {%s};" % (name, len(rows), ",".join(str(len(r)) for r in rows)))
DT = ["2M5", "5M", "7M5", "10M"]; SR = ["8K", "16K", "24K", "32K", "48K", "48K_HR", "96K_HR"]
arr("NS", [[x or 0 for x in r] for r in T.NS], "int"); arr("ND", [[x or 0 for x in r] for r in T.ND], "int")
I = []; W = []
for d in range(4):
    for s in range(7):
        b = T.I[d][s] if s < len(T.I[d]) else None
        I.append(list(b) if b is not None else [0])
        W.append(list(getattr(T, "W_%s_%s" % (DT[d], SR[s]), [0])))
ragged("BANDS", I, "int")
ragged("WIN", W, "double")
arr("LFCB", T.SNS_LFCB, "double"); arr("HFCB", T.SNS_HFCB, "double")
ragged("VQG", [T.SNS_VQ_REG_ADJ_GAINS, T.SNS_VQ_REG_LF_ADJ_GAINS, T.SNS_VQ_NEAR_ADJ_GAINS, T.SNS_VQ_FAR_ADJ_GAINS], "double")
arr("MPVQ", T.SNS_MPVQ_OFFSETS, "int")
for n in ("TNS_ORDER_BITS", "TNS_ORDER_FREQ", "TNS_ORDER_CUMFREQ", "TNS_COEF_BITS", "TNS_COEF_FREQ", "TNS_COEF_CUMFREQ",
          "AC_SPEC_LOOKUP", "AC_SPEC_BITS", "AC_SPEC_FREQ", "AC_SPEC_CUMFREQ"):
    arr(n, getattr(T, n), "int")
for s in SR[:5]:
    arr("LTPF_N_" + s, getattr(T, "LTPF_N_" + s), "double"); arr("LTPF_D_" + s, getattr(T, "LTPF_D_" + s), "double")
arr("LTPF_H12K8", T.LTPF_H12K8, "double"); arr("LTPF_H4", T.LTPF_H4, "double"); arr("LTPF_HI", T.LTPF_HI, "double")
