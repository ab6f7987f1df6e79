"""The registered checks: property id -> monitor sources and build flavours."""
REG = ["reg_base.cpp", "reg_rk.cpp", "reg_extra.cpp", "reg_w.cpp", "reg_ieuler.cpp", "reg_alg1.cpp", "reg_alg2.cpp"]
ALG = ["reg_alg1.cpp", "reg_alg2.cpp"]
CHECKS = {
    "C01": dict(src=["c01_lu_solve.cpp"], lib=True),
    "C02": dict(src=["c02_lu_reuse.cpp"], lib=True),
    "C03": dict(src=["c03_lu_update.cpp"], lib=True),
    "C04": dict(src=["c04_sparse.cpp"], lib=False),
    "C05": dict(src=["c05_vector.cpp"], lib=False),
    "C06": dict(src=["c06_jacobian.cpp"], lib=True),
    "C07": dict(src=["c07_mappings.cpp"], lib=True),
    "C08": dict(src=["c08_newton.cpp"], lib=True),
    "C09": dict(src=["c09_directions.cpp"], lib=True),
    "C10": dict(src=["c10_explicit_rk.cpp", "reg_base.cpp", "reg_rk.cpp"], lib=True),
    "C11": dict(src=["c11_adaptivity.cpp", "reg_base.cpp", "reg_rk.cpp", "reg_w.cpp", "reg_extra.cpp"], lib=True),
    "C27": dict(src=["c27_step_size.cpp"], lib=True),
    "C12": dict(src=["c12_rosenbrock.cpp", "reg_base.cpp", "reg_w.cpp"], lib=True),
    "C13": dict(src=["c13_implicit_euler.cpp", "reg_base.cpp", "reg_rk.cpp"] + ALG, lib=True),
    "C14": dict(src=["c14_extrapolation.cpp", "reg_base.cpp", "reg_rk.cpp", "reg_extra.cpp", "reg_w.cpp"], lib=True),
    "C15": dict(src=["c15_events.cpp"] + REG, lib=True),
    "C16": dict(src=["c16_models.cpp", "reg_base.cpp", "reg_rk.cpp", "reg_extra.cpp", "reg_w.cpp", "reg_models.cpp"], lib=True),
    "C18": dict(src=["c18_reuse.cpp"] + REG, lib=True),
    "C17": dict(src=["c17_protocol.cpp"] + REG, lib=True),
    "C21": dict(src=["c21_outputs.cpp", "reg_out.cpp"] + REG, lib=True),
    "C29": dict(src=["c29_failed_step.cpp"] + REG, lib=True),
    "C19": dict(src=["c19_parameters.cpp", "reg_out.cpp", "reg_models.cpp"] + REG, lib=True),
    "C20": dict(src=["c20_factory.cpp"], lib=True),
    "C22": dict(src=["c22_observers.cpp"], lib=False),
    "C23": dict(src=["c23_measure.cpp"] + REG, lib=True),
    "C25": dict(src=["c25_memory.cpp", "reg_out.cpp", "reg_models.cpp"] + REG, lib=True,
                runs=[dict(flavour="plain", scale=0.4, wrapper=["valgrind", "--quiet", "--error-exitcode=76", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=25"]),
                      dict(flavour="dbg", scale=1.0), dict(flavour="rel", scale=0.5)]),
    "C28": dict(src=["c28_convergence.cpp"] + REG, lib=True, runs=[dict(flavour="rel", scale=1.0), dict(flavour="dbg", scale=0.4)]),
    "C30": dict(src=["c30_order.cpp"] + REG, lib=True),
    "C31": dict(src=["c31_writing.cpp"] + REG, lib=True),
    "C32": dict(src=["c32_missing.cpp", "reg_out.cpp"] + REG, lib=True),
    "C26": dict(src=["c26_threads.cpp", "reg_out.cpp", "reg_models.cpp"] + REG, lib=True,
                runs=[dict(flavour="tsan", scale=1.0, shards=4), dict(flavour="rel", scale=0.5)]),
    "C24": dict(src=["c24_utils.cpp"], lib=False),
}
