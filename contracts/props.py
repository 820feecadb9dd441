"""Per-property run parameters."""
PROPS = {
    "P01": dict(budget=8, bounded=[]),
    "P02": dict(budget=14),
    "P03": dict(budget=10),
    "P04": dict(budget=10),
    "P05": dict(budget=12),
    "P06": dict(budget=20),
    "P07": dict(budget=14),
    "P08": dict(budget=8),
    "P09": dict(budget=12),
    "P10": dict(budget=14),
    "P11": dict(budget=12),
    "P12": dict(budget=8),
    "P13": dict(budget=10),
    "P14": dict(budget=12),
    "P15": dict(budget=20),
    "P16": dict(budget=10),
    "P17": dict(budget=20),
    "P18": dict(budget=12),
    "P19": dict(budget=12),
    "P20": dict(budget=12),
    "P21": dict(budget=14),
    "P22": dict(budget=8),
    "P23": dict(budget=18),
}
