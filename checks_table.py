import os


def part_flags(R, p):
    d = {"common": "common", "radau": "Radau5-NG", "rodas": "Rodas-NG", "rock4": "Rock4-NG", "rock4l": "Rock4-L", "sdirkl": "SDIRKL", "symplectic": "SymplecticRK"}[p]
    return ["-I" + os.path.join(R, d, "include")]


C = ["common"]
CHECKS = {
    "D01": dict(parts=C + ["rodas"]),
    "D02": dict(parts=C + ["rodas"]),
    "D03": dict(parts=C + ["rodas"]),
    "D04": dict(parts=C + ["rodas"]),
    "D05": dict(parts=C + ["rodas"]),
    "D06": dict(parts=C + ["rodas"], flags=["-DLOGRODAS"]),
    "D07": dict(parts=C + ["rodas"]),
    "R01": dict(parts=C + ["radau"]),
    "R02": dict(parts=C + ["radau"]),
    "R03": dict(parts=C + ["radau"]),
    "R04": dict(parts=C + ["radau"]),
    "R05": dict(parts=C + ["radau"]),
    "R06": dict(parts=C + ["radau"]),
    "R08": dict(parts=C + ["radau"]),
    "R07": dict(parts=C + ["radau"], flags=["-DLOGRADAU5"]),
}
CHECKS.update({
    "C01": dict(parts=C),
    "C02": dict(parts=C, libs=["-llapack", "-ldl"], plugins={"debug": ("C02_debug.cpp", C, ["-DDEBUG"])}),
    "C03": dict(parts=C),
})
R4F = ["-DALIGN_BLOCKED"]
CHECKS.update({
    "K01": dict(parts=C + ["rock4"], flags=R4F),
    "K02": dict(parts=C + ["rock4"], flags=R4F),
    "K03": dict(parts=[], libs=["-ldl"], env={"OMP_WAIT_POLICY": "passive", "OMP_NUM_THREADS": "8"}, plugins={
        "seq": ("K03_plugin.cpp", C + ["rock4"], R4F),
        "omp": ("K03_plugin.cpp", C + ["rock4"], R4F + ["-DROCK4_OMP", "-fopenmp"])}),
    "K04": dict(parts=C + ["rock4"], flags=R4F + ["-DLOGROCK4"]),
    "K05": dict(parts=C + ["rock4"], flags=R4F),
    "K06": dict(parts=C + ["rock4"], flags=R4F),
    "K07": dict(parts=C + ["rock4"], flags=R4F),
})
CHECKS.update({
    "L01": dict(parts=C + ["rock4l"], flags=R4F),
    "L02": dict(parts=C + ["rock4l"], flags=R4F),
    "L03": dict(parts=C + ["rock4l"], flags=R4F),
})
CHECKS.update({
    "S01": dict(parts=C + ["sdirkl"]),
    "S02": dict(parts=C + ["sdirkl"]),
    "S03": dict(parts=C + ["sdirkl"]),
})
for i in ("Y01", "Y02", "Y03", "Y04"):
    CHECKS[i] = dict(parts=C + ["symplectic"], libs=[])
# scenarios over all the integrators, in two shared objects (Rock4.hpp and Rock4L.hpp exclude each other)
PARTS = [C + ["radau", "rodas", "rock4"], C + ["rock4l", "sdirkl", "symplectic"]]
LOGS = ["-DLOGRADAU5", "-DLOGRODAS", "-DLOGROCK4"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"]


def scen(name, flags, cxx="g++"):
    return {"%s%d" % (name, k): ("scen_plugin.cpp", PARTS[k - 1], ["-DSCEN_PART=%d" % k] + flags, cxx) for k in (1, 2)}


CHECKS["M01"] = dict(parts=C, flags=LOGS, san=SAN, libs=["-llapack", "-ldl"], plugins=scen("san", SAN + LOGS + R4F))
CHECKS["M02"] = dict(parts=C, libs=["-llapack", "-ldl"], plugins=scen("mem", ["-fno-lifetime-dse"] + LOGS + R4F))
CHECKS["G01"] = dict(parts=C, libs=["-llapack", "-ldl"], plugins={
    **scen("ref", ["-fno-builtin"]),
    **scen("o0", ["-O0", "-fno-builtin", "-DON_STACK", "-DDEBUG"] + LOGS),
    **scen("o3", ["-O3", "-fno-builtin"] + R4F),
    **scen("clang", ["-O2", "-fno-builtin", "-UGCC", "-DCLANG"], "clang++"),
    **scen("promise", ["-O1", "-fno-builtin", "-DON_STACK", "-fsanitize=alignment", "-fsanitize-trap=alignment"] + R4F, "clang++"),
    **scen("native", ["-O3", "-march=native"] + R4F)})
CHECKS["I01"] = dict(parts=C + ["radau", "rodas", "rock4"], flags=R4F, libs=["-llapack", "-ldl"], plugins=scen("ref", R4F))
TSAN = ["-fsanitize=thread", "-g1"]
CHECKS["T01"] = dict(parts=C, flags=LOGS, san=TSAN, libs=["-llapack", "-ldl"], plugins=scen("tsan", TSAN + LOGS + R4F))
