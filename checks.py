# id -> number of generated cases (quick, thorough), facets of the coverage-guided stage (thorough)
# and what the check assumes
CHECKS = {
    "P01": {"cases": (250000, 8000000), "fuzz": ["v3_flush", "v2_flush", "noflush", "unrepresentable", "headeronly", "refused"]},
    "P02": {"cases": (150000, 5000000), "autoinit": False, "fuzz": ["v3", "v2", "nosamples"]},
    "P03": {"cases": (500000, 6000000), "fuzz": ["v2", "v3", "decoder", "shortage"]},
    "P04": {"cases": (300000, 10000000), "msi": True, "fuzz": ["record", "buffer", "text", "extra"]},
    "P05": {"cases": (600000, 12000000), "fuzz": ["value", "burst", "anychange"]},
    "P06": {"cases": (300000, 8000000), "fuzz": ["repack", "decoded", "passage", "duplicate"]},
    "P07": {"cases": (150000, 5000000), "fuzz": ["history", "puzzle", "buffer"]},
    "P08": {"cases": (100000, 3000000), "fuzz": ["history", "impossible"]},
    "P09": {"cases": (100000, 3000000), "fuzz": ["equal", "errors"]},
    "P10": {"cases": (1500000, 40000000), "fuzz": ["print", "fields", "limits", "texts", "junk"]},
    "P11": {"cases": (2000000, 40000000), "fuzz": ["sample", "record"]},
    "P12": {"cases": (2000000, 40000000), "fuzz": ["build", "dissect", "channel", "text"]},
    "P13": {"cases": (600000, 12000000), "fuzz": ["glob", "list"]},
    "P14": {"cases": (600000, 15000000), "fuzz": ["edits", "broken"]},
    "P15": {"cases": (60000, 2000000), "fuzz": ["records", "tracelist", "errors"]},
    "P16": {"cases": (100000, 3000000), "fuzz": ["history", "faults"]},
    "P17": {"cases": (20000, 500000), "msi": True},
    "P18": {"cases": (150000, 4000000), "msi": True, "fuzz": ["lists"]},
    "P19": {"cases": (200000, 4000000)},
    "P20": {"cases": (200000, 8000000), "fuzz": ["history", "format-error"]},
    "P21": {"cases": (1000000, 20000000), "fuzz": ["sequence", "roundtrip"]},
    "P22": {"cases": (20000, 500000), "msi": True, "url": True},
}
