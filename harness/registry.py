"""What each check consists of."""
CHECKS = {}


def reg(prop, **kw):
    CHECKS[prop] = kw


for p in ("C01", "C02", "C04", "C05"):
    reg(p, driver="drv_gauss", shards=6, level="model_checking")
reg("C03", driver="drv_gauss", shards=8, level="model_checking",
    design=[dict(module="GObj", cfg="GObj.cfg", cfg_thorough="GObj.cfg")],
    gen=[dict(name="access", module="GObj", cfg="GObjGen.cfg", lines=True)])
for p in ("C06", "C07", "C08"):
    reg(p, driver="drv_trans", shards=6)
for p in ("C09", "C10"):
    reg(p, driver="drv_estim", shards=6)
EPGEN = [dict(name="short", module="EP", cfg="EPGen.cfg", lines=True),
         dict(name="sim3", module="EP", cfg="EPSim.cfg", lines=True, extra=["-simulate", "num=30", "-depth", "25", "-seed", "@SEED"],
              extra_thorough=["-simulate", "num=400", "-depth", "25", "-seed", "@SEED"]),
         dict(name="sim7", module="EP", cfg="EPSim7.cfg", lines=True, extra=["-simulate", "num=12", "-depth", "61", "-seed", "@SEED"],
              extra_thorough=["-simulate", "num=150", "-depth", "61", "-seed", "@SEED"])]
EPD = [dict(module="EP", cfg="EP_%s.cfg" % c, workers=2) for c in ("n2p1", "n2ph", "n2p2", "n2dh", "n2d1")] + \
      [dict(module="EP", cfg="EP_%s.cfg" % c, workers=4, tier="thorough", timeout=3000) for c in ("n3ph", "n3p3")]
for p in ("C11", "C12", "C13"):
    reg(p, driver="drv_ep", shards=8, gen=EPGEN, design=EPD)
reg("C14", driver="drv_post", shards=8, gen=EPGEN[1:], design=EPD + [dict(module="EP", cfg="EP_damp.cfg"), dict(module="EP", cfg="EP_damph.cfg")])
for p in ("C15", "C16", "C17", "C18", "C19"):
    reg(p, driver=["drv_kalman", "drv_post"] if p == "C17" else "drv_kalman", shards=8)
reg("C20", driver="drv_graph", shards=8, design=[dict(module="Graph", cfg="Graph.cfg")], gen=[dict(name="equip", module="Graph", cfg="GraphGen.cfg", lines=True)])
reg("C26", driver="drv_graph", shards=2, design=[dict(module="Sched", cfg="Sched.cfg")])
reg("C21", driver="drv_sys", shards=8, design=[dict(module="Sim", cfg="Sim.cfg")])
reg("C22", driver="drv_sys", shards=8)
reg("C23", driver="drv_db", shards=8, design=[dict(module="DB", cfg="DB.cfg")],
    gen=[dict(name="store", module="DB", cfg="DBGen.cfg", lines=True, extra=["-simulate", "num=300", "-depth", "23", "-seed", "@SEED"],
              extra_thorough=["-simulate", "num=2500", "-depth", "23", "-seed", "@SEED"])])
RUNS = [dict(name="runs", module="Runs", cfg="RunsGen.cfg", lines=True)]
reg("C24", driver="drv_runs", shards=8, design=[dict(module="Runs", cfg="Runs.cfg")], gen=RUNS)
reg("C27", driver=["drv_show", "drv_runs"], shards=4, design=[dict(module="Runs", cfg="Runs.cfg")], gen=RUNS)
reg("C28", driver="drv_show", shards=8)
reg("C25", driver="drv_sweep", shards=8, design=[dict(module="Sweep", cfg="Sweep.cfg", workers=4)],
    gen=[dict(name="sweeps", module="Sweep", cfg="SweepGen.cfg", lines=True, extra=["-simulate", "num=40", "-depth", "120", "-seed", "@SEED"],
              extra_thorough=["-simulate", "num=500", "-depth", "120", "-seed", "@SEED"])])
reg("C29", driver="drv_engine", shards=8)
reg("C30", driver="drv_batch", shards=8, design=[dict(module="Batch", cfg="Batch.cfg")], gen=[dict(name="batch", module="Batch", cfg="BatchGen.cfg", lines=True)])
reg("C31", driver="drv_report", shards=8)
NOTES = {}
