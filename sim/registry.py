"""property -> scenarios, with the number of simulated runs per tier"""
import importlib

SCENARIOS = {}


def scenario(cls):
    SCENARIOS[cls.name] = cls()
    return cls


MODULES = ["scn_store", "scn_store2", "scn_runs", "scn_hgs", "scn_comp", "scn_algos", "scn_req", "scn_rep", "scn_plots"]


def load():
    for m in MODULES:
        importlib.import_module("sim." + m)
    return SCENARIOS


# property: [(scenario, quick runs, thorough runs)]
PLAN = {}


def plan_for(prop, entries):
    PLAN[prop] = entries

ASSUMPTIONS = {"*": ["a killed process loses its user-space buffers but not what write() accepted (no power loss)"]}
PLAN.update({
    "C01": [("crashbatch", 400, 4000)],
    "C02": [("crashanalysis", 250, 3000)],
    "C03": [("caches", 240, 2500)],
    "C04": [("placement", 300, 3000)],
    "C05": [("naming", 300, 3000)],
    "C06": [("extraction", 280, 4000)],
    "C07": [("budgetruns", 500, 5000)],
    "C08": [("timeruns", 500, 5000)],
    "C09": [("isolation", 400, 4000)],
    "C10": [("repeatable", 80, 1200), ("freshseeds", 60, 1000)],
    "C11": [("hgscompletes", 360, 4000)],
    "C12": [("hgspopulation", 240, 4000)],
    "C13": [("hgscost", 360, 4000)],
    "C14": [("hgssprouts", 360, 5000)],
    "C15": [("hgstrimming", 360, 5000)],
    "C16": [("watching", 300, 4000), ("slots", 120, 2000)],
    "C17": [("imgamigration", 360, 5000), ("realmigration", 160, 3000)],
    "C18": [("imgaepochs", 360, 5000), ("realepochs", 120, 2500)],
    "C19": [("compfail", 400, 5000)],
    "C20": [("requests", 300, 4000)],
    "C24": [("reports", 240, 4000)],
    "C27": [("plots", 180, 4000)],
    "C21": [("merged", 1500, 6000)],
    "C23": [("algoruns", 450, 6000)],
    "C22": [("concurrent", 200, 4000), ("firststores", 120, 3000), ("slowreaders", 240, 4000), ("actorbatches", 100, 2000)],
})
