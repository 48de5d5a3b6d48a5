import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGETS = []
def t(name, src, flavour="std", libs=("parser",), flags=()):
    TARGETS.append({"name": name, "src": [f"{V}/harness/{s}" for s in src], "flavour": flavour, "libs": list(libs), "flags": list(flags)})
t("c06", ["c06_text_sync.cpp"], libs=("parser", "server"))
t("c01", ["c01_queue.cpp"], flavour="mc", libs=("parser", "server"))
t("c01r", ["c01_queue.cpp", "race_rt.cpp"], flavour="mcr", libs=("parser", "server"))
t("c02", ["c02_requests.cpp"], flavour="mc", libs=("parser", "server"))
t("c02r", ["c02_requests.cpp", "race_rt.cpp"], flavour="mcr", libs=("parser", "server"))
t("c03", ["c03_debug.cpp"], flavour="mc", libs=("parser", "server"))
t("c03r", ["c03_debug.cpp", "race_rt.cpp"], flavour="mcr", libs=("parser", "server"))
t("c04", ["c04_framing.cpp"], flavour="mc", libs=("parser", "server"))
t("c04r", ["c04_framing.cpp", "race_rt.cpp"], flavour="mcr", libs=("parser", "server"))
t("c05", ["c05_routing.cpp"], flavour="mc", libs=("parser", "server"))
t("c05r", ["c05_routing.cpp", "race_rt.cpp"], flavour="mcr", libs=("parser", "server"))
t("c11", ["c11_expr.cpp"])
t("c12", ["c12_ca_flow.cpp"])
t("c13", ["c13_operands.cpp"])
t("probe", ["probe.cpp"])  # a tool, not a check
t("c15", ["c15_layout.cpp"])
t("c14", ["c14_symbols.cpp"])
t("c17", ["c17_copy.cpp"])
t("c16", ["c16_data.cpp"])
t("c21dump", ["c21_dump.cpp"])  # a tool, not a check
t("c21", ["c21_mach.cpp"])
t("c07", ["c07_histories.cpp"], libs=("parser", "server"))
t("c08", ["c08_cancel.cpp"], flavour="mc", libs=("parser", "server"))
t("c10", ["c10_config.cpp"], libs=("parser", "server"))
t("c20", ["c20_robust.cpp"])
t("c18", ["c18_columns.cpp"])
t("c09", ["c09_protocol.cpp"], libs=("parser", "server"))
