# property -> harness builds.  variant names must be unique inside a property.
import os
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
# gcc under UBSan does not fold a comparison of a function address with nullptr, so PSO does not compile there
NOUB = ["-fno-sanitize=undefined", "-fsanitize=signed-integer-overflow,bounds,integer-divide-by-zero,shift,float-cast-overflow,enum,bool,alignment", "-fno-sanitize-recover=all"]
CHECKS = {
    "C01": {"builds": [{"name": "c01", "src": "c01_random.cpp"}]},
    "C02": {"builds": [{"name": "c02", "src": "c02_codes.cpp", "flags": ["-DTABLE_SEED=%d" % SEED, "-ftemplate-depth=3000"]}]},
    "C03": {"builds": [{"name": "c03", "src": "c03_numeric.cpp", "flags": ["-DTABLE_SEED=%d" % SEED]}]},
    "C04": {"builds": [{"name": "c04", "src": "c04_bitset.cpp"}]},
    "C05": {"builds": [{"name": "c05", "src": "c05_matrix.cpp"}]},
    "C06": {"builds": [{"name": "c06", "src": "c06_box.cpp"}]},
    "C07": {"builds": [{"name": "c07", "src": "c07_step.cpp"},
                       {"name": "c07cpp20", "variant": "cpp20", "src": "c07_step.cpp", "flags": ["-std=c++20"]}]},
    "C08": {"builds": [{"name": "c08", "src": "c08_pareto.cpp"}]},
    "C09": {"builds": [{"name": "c09", "src": "c09_so.cpp"}]},
    "C10": {"builds": [{"name": "c10p%d" % k, "variant": "part%d" % k, "src": "c10_mo.cpp", "flags": ["-DPART=%d" % k]} for k in range(4)]},
    "C12": {"builds": [{"name": "c12", "src": "c12_soga_select.cpp"}]},
    "C13": {"builds": [{"name": "c13", "src": "c13_soga_best.cpp"}]},
    "C14": {"builds": [{"name": "c14", "src": "c14_soga_account.cpp"},
                       {"name": "c14n2", "variant": "nsga2", "src": "c14_moga_account.cpp", "flags": ["-DMOGA_ONLY2"]},
                       {"name": "c14n3", "variant": "nsga3", "src": "c14_moga_account.cpp", "flags": ["-DMOGA_ONLY3"]}]},
    "C15": {"builds": [{"name": "c15", "src": "c15_ga_eval.cpp"},
                       {"name": "c15nt", "variant": "nothreads", "src": "c15_ga_eval.cpp", "flags": ["-DHEU_NO_THREADS"]},
                       {"name": "c15n2", "variant": "nsga2", "src": "c15_moga_eval.cpp", "flags": ["-DMOGA_ONLY2"]},
                       {"name": "c15n3", "variant": "nsga3", "src": "c15_moga_eval.cpp", "flags": ["-DMOGA_ONLY3"]}]},
    "C11": {"builds": [{"name": "c11", "src": "c11_ga_ops.cpp"},
                       {"name": "c11cpp20", "variant": "cpp20", "src": "c11_ga_ops.cpp", "flags": ["-std=c++20"]}]},
    "C16": {"builds": [{"name": "c16", "src": "c16_nsga2.cpp"},
                       {"name": "c16nt", "variant": "nothreads", "src": "c16_nsga2.cpp", "flags": ["-DHEU_NO_THREADS"]}]},
    "C17": {"builds": [{"name": "c17n2", "variant": "nsga2", "src": "c17_front.cpp", "flags": ["-DMOGA_ONLY2"]},
                       {"name": "c17n3", "variant": "nsga3", "src": "c17_front.cpp", "flags": ["-DMOGA_ONLY3"]}]},
    "C18": {"builds": [{"name": "c18", "src": "c18_refpoints.cpp"}]},
    "C19": {"builds": [{"name": "c19", "src": "c19_nsga3.cpp"}]},
    "C20": {"builds": [{"name": "c20p%d" % k, "variant": "part%d" % k, "src": "c20_pso_move.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C21": {"builds": [{"name": "c21p%d" % k, "variant": "part%d" % k, "src": "c21_pso_best.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C22": {"builds": [{"name": "c22p%d" % k, "variant": "part%d" % k, "src": "c22_pso_account.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)] +
                      [{"name": "c22nt%d" % k, "variant": "nothreads%d" % k, "src": "c22_pso_account.cpp", "flags": ["-DHEU_NO_THREADS", "-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C23": {"builds": [{"name": "c23p%d" % k, "variant": "part%d" % k, "src": "c23_aos_motion.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C24": {"builds": [{"name": "c24p%d" % k, "variant": "part%d" % k, "src": "c24_aos_layers.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C25": {"builds": [{"name": "c25p%d" % k, "variant": "part%d" % k, "src": "c25_aos_account.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(3)] +
                      [{"name": "c25nt%d" % k, "variant": "nothreads%d" % k, "src": "c25_aos_account.cpp", "flags": ["-DHEU_NO_THREADS", "-DPART=%d" % k] + NOUB} for k in range(3)]},
    "C26": {"builds": [{"name": "c26p%d" % k, "variant": "part%d" % k, "src": "c26_repro.cpp", "flags": ["-DPART=%d" % k] + NOUB} for k in range(5)]},
}
