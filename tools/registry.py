MODULES = {
    "P13": "passman",
    "P12": "opt",
    "P08": "collect",
    "P07": "gens",
    "P06": "excflow",
    "P03": "locks",
    "P02": "reduce",
    "P01": "parloop",
}
