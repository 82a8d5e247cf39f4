# property id -> how its harness is built
def dc(name, folder, *srcs, san=False):
    """a sample program, compiled as the Makefiles do"""
    return (["g++", "-std=c++17", "-O2", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-I@REPO@/include", "-o", "@BDIR@/" + name]
            + (["-g1", "-fsanitize=address"] if san else [])
            + ["@REPO@/samples/%s/%s" % (folder, f) for f in srcs]
            + ["@REPO@/lib/period.cpp", "@REPO@/lib/AlgorithmPrimitivity.cpp", "-lntl", "-lgmp", "-lgf2x", "-lpthread"])


PROPS = {
    "C01": {"src": ["c01_minpoly.cpp"], "w128": "sfmtdc"},
    "C02": {"src": ["c02_primitivity.cpp"]},
    "C03": {"src": ["c03_factor.cpp"]},
    "C04": {"src": ["c04_reducible_equidist.cpp"], "w128": "sfmtdc"},
    "C05": {"src": ["c05_equidist.cpp"], "w128": "sfmtdc"},
    "C06": {"src": ["c06_annihilate.cpp"], "w128": "sfmtdc"},
    "C07": {"src": ["c07_parity.cpp"], "w128": "sfmtdc", "flags": ["-I@REPO@/samples"]},
    "C08": {"src": ["c08_search.cpp"], "w128": "sfmtdc"},
    "C09": {"src": ["c09_redsearch.cpp"], "w128": "sfmtdc"},
    "C10": {"src": ["c10_searchtemper.cpp"], "probes": {"PROBE_RT_ONE": "probe_rt_one.cpp"}},
    "C11": {"src": ["c11_partial.cpp"]},
    "C12": {"src": ["c12_bestbits.cpp"]},
    "C13": {"src": ["c13_linearity.cpp"], "w128": "sfmtdc"},
    "C14": {"src": ["c14_mt.cpp"]},
    "C15": {"src": ["c14_mt.cpp"], "flags": ["-DMT64BIT"]},
    "C16": {"src": ["c16_sequential.cpp"]},
    "C17": {"src": ["c17_util.cpp", "c17_w128d.cpp"], "w128": "sfmtdc", "flags": ['-DW128_HEADER_D="@REPO@/samples/dSFMTdc/w128.hpp"']},
    "C18": {"src": ["c18_dcclasses.cpp"], "flags": ["-I@REPO@/samples", "-fno-operator-names"], "probes": {"PROBE_MT2": "probe_mt2.cpp"},
            "repo_src": ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "samples/XORSHIFT/xorshift128.c"]},
    "C19": {"src": ["c19_sfmt.cpp"], "w128": "sfmtdc", "flags": ["-I@REPO@/samples", "-I@REPO@/samples/sfmtdc"],
            "repo_src": ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "samples/sfmtdc/Annihilate.cpp"]},
    "C20": {"src": ["c20_dsfmt.cpp"], "w128": "dSFMTdc", "flags": ["-I@REPO@/samples", "-I@REPO@/samples/dSFMTdc"],
            "repo_src": ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", "samples/dSFMTdc/Annihilate.cpp", "samples/dSFMTdc/calc_fixpoint.cpp"]},
    "C21": {"src": ["c21_lanes.cpp"], "w128": "sfmtdc", "flags": ["-I@REPO@/samples", "-I@REPO@/samples/sfmtdc"],
            "repo_src": ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp"]},
    "C22": {"src": ["c21_lanes.cpp"], "w128": "dSFMTdc", "flags": ["-DDSFMT52", "-I@REPO@/samples", "-I@REPO@/samples/dSFMTdc"],
            "repo_src": ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp"]},
    "C23": {"src": ["c23_creators.cpp"], "w128": "sfmtdc", "programs": [
        dc("tinymt32dc", "TinyMTDC", "tinymt32dc.cpp", "parse_opt.cpp"), dc("mt2", "MTDC", "mt2.cpp"),
        dc("rmt64dc", "RMT", "rmt64dc.cpp"), dc("MTGP32dc", "MTGPDC", "MTGP32dc.cpp", "parse_opt.cpp")]},
    "C24": {"src": ["c24_simdcreators.cpp"], "w128": "sfmtdc", "programs": [
        dc("sfmtdc", "sfmtdc", "sfmtdc.cpp", "Annihilate.cpp"), dc("sfmtdcfixed", "sfmtdc", "sfmtdcfixed.cpp", "Annihilate.cpp"),
        dc("dSFMTdc", "dSFMTdc", "dSFMTdc.cpp", "Annihilate.cpp", "calc_fixpoint.cpp")]},
    "C25": {"src": ["c25_tools.cpp"], "w128": "sfmtdc", "flags": ["-DPROGS_ASAN"], "programs": [
        dc("sfmt_equidist", "sfmtdc", "calc_equidist.cpp", "Annihilate.cpp", san=True), dc("sfmt_period", "sfmtdc", "test_period.cpp", "Annihilate.cpp", san=True),
        dc("sfmt_linearity", "sfmtdc", "test_linearity.cpp", "Annihilate.cpp", san=True),
        dc("dsfmt_equidist", "dSFMTdc", "calc_equidist.cpp", "Annihilate.cpp", san=True), dc("dsfmt_period", "dSFMTdc", "calc_period.cpp", "Annihilate.cpp", san=True),
        dc("dsfmt_linearity", "dSFMTdc", "test_linearity.cpp", "Annihilate.cpp", san=True),
        dc("dsfmt_fixpoint", "dSFMTdc", "calc_fixpoint_main.cpp", "calc_fixpoint.cpp", "Annihilate.cpp", "printBinary.cpp", san=True),
        dc("dsfmt_parity", "dSFMTdc", "calc_parity_main.cpp", "calc_parity.cpp", "Annihilate.cpp", "printBinary.cpp", san=True),
        dc("dsfmt_old", "dSFMTdc", "make_old_format.cpp", "Annihilate.cpp", "printBinary.cpp", san=True),
        dc("rmt_equidist", "RMT", "calc_equidist.cpp", san=True), dc("rmt_period", "RMT", "calc_period.cpp", san=True)]},
    "C26": {"src": ["c26_xorshift.cpp"], "programs": [dc("xorshift%d" % i, "XORSHIFT", "xorshift-%d.cpp" % i) for i in range(1, 6)] + [
        dc("mt1", "MTDC", "mt1.cpp"),
        ["gcc", "-O2", "-w", "-std=c11", "-ftrivial-auto-var-init=pattern", "-o", "@BDIR@/xorshift128", "@REPO@/samples/XORSHIFT/xorshift128.c", "@REPO@/samples/XORSHIFT/xorshift128_main.c"]]},
}
