"""What each check runs: model instances, executor modes, trace specifications."""
SITES_NOTE = ["TLC 1.8 and the decimal arithmetic of spec/java/Real.java (self-tested by spec/RealTest.tla) are trusted"]

PROPS = {
    "C01": dict(crate="core", bin="core",
        mc=[dict(module="MC_Constraints", cfg="MC_Constraints.cfg", thorough_cfg="MC_Constraints_deep.cfg")],
        exec=[dict(mode="admit", **{"in": "admit.in"}, out="admit.tr")],
        trace=[dict(module="TraceConstraints", trace="admit.tr")]),
    "C02": dict(crate="core", bin="core",
        mc=[dict(module="MC_Constraints", cfg="MC_Constraints.cfg", thorough_cfg="MC_Constraints_deep.cfg", workers=4)],
        exec=[dict(mode="cons", **{"in": "constraints.in"}, out="cons.tr")],
        trace=[dict(module="TraceConstraints", trace="cons.tr")]),
    "C03": dict(crate="core", bin="core",
        mc=[dict(module="MC_Comb", cfg="MC_Comb.cfg")],
        exec=[dict(mode="comb", out="comb.tr")],
        trace=[dict(module="TraceComb", trace="comb.tr")]),
    "C04": dict(crate="core", bin="core",
        mc=[dict(module="MC_Linalg", cfg="MC_Linalg.cfg", workers=4)],
        exec=[dict(mode="lin", **{"in": "lin.in"}, out="lin.tr")],
        trace=[dict(module="TraceLinalg", trace="lin.tr")]),
    "C05": dict(crate="full", bin="full",
        mc=[dict(module="MC_Prob", cfg="MC_Prob.cfg", thorough_cfg="MC_Prob_deep.cfg", workers=4)],
        exec=[dict(mode="prob", **{"in": "prob.in"}, out="prob.tr")],
        trace=[dict(module="TraceProb", trace="prob.tr", shards=6)]),
    "C06": dict(crate="full", bin="full",
        mc=[dict(module="MC_Simplex", cfg="MC_Simplex.cfg", thorough_cfg="MC_Simplex_deep.cfg", workers=4)],
        exec=[dict(mode="simplex", **{"in": "simplex.in"}, out="simplex.tr")],
        trace=[dict(module="TraceSimplex", trace="simplex.tr", shards=6)]),
}
PROPS["C07"] = dict(crate="full", bin="full",
    mc=[dict(module="MC_Families", cfg="MC_Families.cfg", thorough_cfg="MC_Families_deep.cfg", workers=5),
        dict(module="MC_Sampling", cfg="MC_Sampling.cfg", thorough_cfg="MC_Sampling_deep.cfg", workers=1)],
    exec=[dict(mode="sample", **{"in": "laws.in"}, out="sample.tr")],
    trace=[dict(module="TraceSampling", trace="sample.tr", shards=7)])
for _p in ("C08", "C09", "C10", "C11", "C14", "C17", "C20"):
    PROPS[_p] = dict(crate="full", bin="full",
        mc=[dict(module="MC_Families", cfg="MC_Families.cfg", thorough_cfg="MC_Families_deep.cfg", workers=6)],
        exec=[dict(mode="laws:" + _p, **{"in": "laws.in"}, out="laws.tr")],
        trace=[dict(module="TraceUv", cfg="Uv_%s.cfg" % _p, trace="laws.tr", shards=7)])
PROPS["C15"] = dict(crate="full", bin="full",
    mc=[dict(module="MC_Fitting", cfg="MC_Fitting.cfg", thorough_cfg="MC_Fitting_deep.cfg", workers=6)],
    exec=[dict(mode="fit", **{"in": "fit.in"}, out="fit.tr")],
    trace=[dict(module="TraceFitting", trace="fit.tr", shards=7)])
PROPS["C12"] = dict(crate="full", bin="full",
    mc=[dict(module="MC_Convolution", cfg="MC_Convolution.cfg", thorough_cfg="MC_Convolution_deep.cfg", workers=6)],
    exec=[dict(mode="conv", **{"in": "conv.in"}, out="conv.tr")],
    trace=[dict(module="TraceConvolution", trace="conv.tr", shards=7)])
PROPS["C13"] = dict(crate="full", bin="full",
    mc=[dict(module="MC_Mixture", cfg="MC_Mixture.cfg", thorough_cfg="MC_Mixture_deep.cfg", workers=6),
        dict(module="MC_Sampling", cfg="MC_Sampling.cfg", thorough_cfg="MC_Sampling_deep.cfg", workers=1)],
    exec=[dict(mode="mix", **{"in": "mix.in"}, out="mix.tr")],
    trace=[dict(module="TraceMixture", trace="mix.tr", shards=7)])
MCV = dict(module="MC_Vectors", cfg="MC_Vectors.cfg", thorough_cfg="MC_Vectors_deep.cfg", workers=3)
for _p in ("C07", "C14", "C16", "C18", "C20"):
    q = PROPS.setdefault(_p, dict(crate="full", bin="full", mc=[], exec=[], trace=[]))
    q["mc"] = q["mc"] + [MCV]
    q["exec"] = q["exec"] + [dict(mode="mv:" + _p, **{"in": "mv.in"}, out="mv.tr")]
    q["trace"] = q["trace"] + [dict(module="TraceVectors", cfg="Mv_%s.cfg" % _p, trace="mv.tr", shards=6)]
PROPS["C19"] = dict(crate="full", bin="full",
    mc=[dict(module="MC_Serial", cfg="MC_Serial.cfg", thorough_cfg="MC_Serial_deep.cfg", workers=4)],
    exec=[dict(mode="serial", **{"in": "serial.in"}, out="serial.tr")],
    trace=[dict(module="TraceSerial", trace="serial.tr", shards=7)])
