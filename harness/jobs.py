"""What each property's check runs: model-checking jobs, generators with their
replays, and drives (recorded executions validated by TLC)."""


def gate(cfg, replay):
    return {"module": "GenGate", "cfg": cfg, "replay": replay, "exhaustive": True}


def prog(cfg, replay, quick, thorough):
    return {"module": "GenProg", "cfg": cfg, "replay": replay, "num": (quick, thorough)}


PROPS = {
    "C01": {"gens": [gate("GenGate_vec4", "gate_vec"), {**gate("GenGate_mat3", "gate_default"), "stride": 4},
                     gate("GenGate_many5", "gate_vec"), prog("GenControls", "program", 24, 500)]},
    "C02": {"gens": [prog("GenSeq", "program", 320, 8000), prog("GenSticky", "program", 120, 3000),
                     prog("GenSeqBig", "program", 40, 1200), prog("GenSeqLong", "program", 24, 800),
                     prog("GenSeqTiny", "program", 40, 1000)]},
    "C03": {"gens": [prog("GenMerge", "options", 160, 4000), prog("GenMergeDM", "options", 60, 1500),
                     prog("GenMergeBig", "options", 24, 800), prog("GenMergeLong", "options", 16, 600),
                     prog("GenMergeNoise", "options", 48, 1200)]},
    "C04": {"gens": [gate("GenGate_dm3", "gate_dm"), prog("GenDM", "program", 160, 3000),
                     prog("GenDMBig", "program", 24, 600),
                     prog("GenDMLong", "program", 16, 500)]},
    "C05": {"gens": [gate("GenGate_noise2", "gate_dm"), prog("GenNoise", "program", 160, 3000),
                     prog("GenNoiseBig", "program", 40, 1000)]},
    "C07": {"gens": [gate("GenGate_mat3", "gate_mat"), prog("GenMat", "program_mat", 160, 3000), prog("GenMatBig", "program_mat", 24, 600),
                     prog("GenControls", "wide_mat", 16, 300),
                     prog("GenObsMat", "observable_mat", 160, 3000)]},
    "C08": {"gens": [prog("GenExp", "exp_values", 120, 3000), prog("GenExpDM", "exp_values", 40, 1000), prog("GenExpBig", "exp_values", 24, 600),
                     prog("GenExpNoise", "exp_values", 40, 1000),
                     prog("GenExpMany", "exp_values", 24, 600)]},
    "C09": {"gens": [prog("GenGrad", "grad_ad", 80, 2000), prog("GenGradDM", "grad_ad", 30, 600),
                     prog("GenGradNoise", "grad_ad", 30, 600), prog("GenGradLong", "grad_ad", 8, 200),
                     prog("GenShare", "share_ad", 24, 600)]},
    "C10": {"gens": [prog("GenGrad", "grad_adjoint", 100, 2500), prog("GenGradLong", "grad_adjoint", 16, 400),
                     prog("GenExpMany", "exp_adjoint", 32, 800),
                     prog("GenShare", "share_adjoint", 48, 1200)]},
    "C11": {"gens": [prog("GenGrad", "grad_gpsr", 40, 1000), prog("GenGradDM", "grad_gpsr", 16, 300),
                     prog("GenGradNoise", "grad_gpsr", 16, 300),
                     prog("GenGradLong", "grad_gpsr", 8, 100),
                     prog("GenExpMany", "exp_gpsr", 16, 400),
                     prog("GenShare", "share_gpsr", 16, 400), prog("GenShare", "share_bwd", 16, 400),
                     prog("GenGrad", "grad_gpsr_bwd", 24, 400)]},
    "C12": {"gens": [prog("GenHess", "hess_ad", 32, 600), prog("GenHessDM", "hess_ad", 16, 300),
                     prog("GenHess", "hess_gpsr", 16, 300), prog("GenHessOne", "hess_gpsr", 8, 200), prog("GenHessOne", "hess_ad", 8, 200),
                     prog("GenShareHess", "share_hess_ad", 16, 300), prog("GenShareHess", "share_hess_gpsr", 8, 200)]},
    "C17": {"gens": [gate("GenGate_vec4", "gate_ops"), gate("GenGate_dm2", "gate_ops"),
                     {**gate("GenGate_many5", "gate_ops"), "stride": 12},
                     prog("GenSeq", "undo", 80, 2000), prog("GenControls", "undo", 8, 200), prog("GenDM", "undo", 40, 800)]},
    "C06": {"gens": [{"module": "GenChannel", "cfg": "GenChannel", "replay": "channel", "exhaustive": True}]},
    "C13": {"gens": [prog("GenShots", "shots", 60, 1500), prog("GenShotsDM", "shots", 60, 1500),
                     prog("GenShotsMany", "shots", 16, 400),
                     prog("GenShotsRare", "shots", 24, 600)]},
    "C14": {"gens": [prog("GenShotGrad", "shot_grad", 40, 800), prog("GenShotGradNoise", "shot_grad", 16, 300),
                     prog("GenShare", "share_shots", 16, 300)]},
    "C15": {"gens": [prog("GenSample", "samples", 120, 3000), prog("GenSampleDM", "samples", 120, 3000), prog("GenSampleBig", "samples", 32, 800),
                     prog("GenRare", "samples", 60, 1500)]},
    "C16": {"gens": [{**gate("GenGate_vec3", "gate_sparse"), "stride": 20}, {**gate("GenGate_many5", "gate_sparse"), "stride": 56}, prog("GenSparse", "sparse", 32, 1200), prog("GenNoise", "conversions", 24, 600), prog("GenSparseTiny", "sparse", 16, 400)]},
    "C18": {"gens": [prog("GenEvo", "evolution", 120, 3000), prog("GenEvoDM", "evolution", 60, 1500),
                     prog("GenEvoGrad", "evolution_grad", 40, 1000), prog("GenEvoGradDM", "evolution_grad", 24, 600),
                     prog("GenEvoHess", "evolution_grad", 16, 300)]},
    "C19": {"gens": [prog("GenSeq", "transform_program", 64, 1500), prog("GenDM", "transform_program", 32, 800),
                     prog("GenNoise", "transform_program", 32, 800), prog("GenExp", "transform_exp", 32, 800),
                     prog("GenExpDM", "transform_exp", 16, 400), prog("GenExpNoise", "transform_exp", 16, 400),
                     prog("GenGrad", "transform_grad", 24, 600), prog("GenGradDM", "transform_grad", 8, 300)]},
    "C20": {"gens": [{"module": "Session", "cfg": "GenSession", "replay": "session", "num": (64, 2000)},
                    {"module": "Session", "cfg": "GenThreads", "replay": "session", "num": (48, 1500)}]},
    "C21": {"gens": [prog("GenBook", "book", 400, 8000),
                     {"module": "GenHea", "cfg": "GenHea", "replay": "ansatz", "exhaustive": True}]},
    "C22": {"gens": [{"module": "GenRequests", "cfg": "GenRequests", "replay": "demand", "exhaustive": True}]},
    "C23": {"gens": [{"module": "GenStates", "cfg": ("GenStates", "GenStatesDeep"), "replay": "states",
                      "exhaustive": True}]},
}


def machine(quick, thorough):
    out = [{"module": "MCMachine", "cfg": quick, "workers": 2, "min_states": 200}]
    if thorough:
        out.append({"module": "MCMachine", "cfg": thorough, "workers": 4, "min_states": 1000, "thorough_only": True,
                    "timeout": 3000})
    return out


CHANNELS = [{"module": "MCChannels", "cfg": "MCChannels", "workers": 2, "min_states": 3000}]
def model(module, cfg, least, deep=(), workers=2):
    """A model checked in the quick tier, and deeper configurations of it."""
    return [{"module": module, "cfg": cfg, "workers": workers, "min_states": least}] + [
        {"module": module, "cfg": c, "workers": 4, "min_states": least, "thorough_only": True, "timeout": 3000}
        for c in deep]


WIRES = model("MCWires", "MCWires3", 15000)
SHIFT = model("MCShift", "MCShift2", 300, ["MCShift3"])
SHOTS = model("MCShots", "MCShots2", 350, ["MCShots3"])
COMPILE = model("MCCompile", "MCCompile3", 5000, ["MCCompileWide", "MCCompile4"])
MODELS = {
    "C01": WIRES,
    "C03": COMPILE,
    "C07": WIRES,
    "C11": SHIFT,
    "C02": machine("MCMachine2FALSE", "MCMachine3FALSE"),
    "C04": machine("MCMachine2TRUE", "MCMachine3TRUE"),
    "C05": CHANNELS,
    "C06": CHANNELS,
    "C09": machine("MCMachine2TRUE", "MCMachine3TRUE"),
    "C12": SHIFT,
    "C13": SHOTS,
    "C14": SHOTS,
}
for _p, _m in MODELS.items():
    PROPS[_p]["models"] = _m
NOTES: dict = {}
