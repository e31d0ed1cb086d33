# property id -> the harness binaries that decide it
LEVEL_ASSUMPTIONS = [
    "gcc 13.3 (-O1, asserts on) builds of the library from /repo's working tree behave like the shipped build",
    "held means: held on every case generated from this seed within the stated generator bounds",
]


def P(h, cfg="plain", **k):
    return dict(cfg=cfg, harness=h, **k)


PROPS = {
    "P01": dict(runs=[P("p01_linear"), P("p01_linear", "mkl")]),
    "P02": dict(runs=[P("p02_reactions")]),
    "P03": dict(runs=[P("p03_frames")]),
    "P04": dict(runs=[P("p04_patch")]),
    "P05": dict(runs=[P("p05_matrices")]),
    "P06": dict(runs=[P("p06_heat")]),
    "P07": dict(runs=[P("p07_transient"), P("p07_transient", "mkl")]),
    "P08": dict(runs=[P("p08_material")]),
    "P09": dict(runs=[P("p09_tangent")]),
    "P10": dict(runs=[P("p10_objective")]),
    "P11": dict(runs=[P("p11_nonlinear"), P("p11_nonlinear", "mkl")]),
    "P12": dict(runs=[P("p12_rigid"), P("p12_rigid", "mkl")]),
    "P13": dict(runs=[P("p13_mpc"), P("p13_mpc", "mkl")]),
    "P14": dict(runs=[P("p14_dofs", "asan")]),
    "P15": dict(runs=[P("p15_sparse", "asan")]),
    "P16": dict(runs=[P("p16_block", "asan")]),
    "P17": dict(runs=[P("p17_textio", "asan")]),
    "P18": dict(runs=[P("p18_eqsolver"), P("p18_eqsolver", "mkl")]),
    "P19": dict(runs=[P("p19_dense", "asan")]),
    "P20": dict(runs=[P("p20_dvec", "asan")]),
    "P21": dict(runs=[P("p21_iso", "asan")]),
    "P22": dict(runs=[P("p22_cdb", "asan")]),
    "P23": dict(runs=[P("p23_cdbsafe", "asan")]),
    "P24": dict(runs=[P("p24_neu", "asan")]),
    "P25": dict(runs=[P("p25_mesh", "asan")]),
    "P26": dict(runs=[P("p26_vtk", "asan")]),
    "P27": dict(runs=[P("p27_reactions", "asan")]),
    "P28": dict(runs=[P("p28_timecontrol")]),
    "P29": dict(runs=[P("p29_queries", "asan")]),
    "P30": dict(runs=[P("p30_storage", "asan")]),
    "P32": dict(runs=[P("p32_python", py=True)]),
    "P31": dict(runs=[P("p31_cli", "asan", mains=("main",))]),
}
