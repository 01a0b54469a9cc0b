"""Random simulation cases: an input script (HIL) with its geometry files, from a dictionary of options.

The dictionary is what a trial records, so that a case can be simplified key by key."""
import math

DEFAULTS = dict(n_dim=2, row=2, lev=1, geom="none", geom_seed=0, refine="", sweeps=1, smooth=1, splits=0, visc=0, av="", fix=0, print_freq=1, write_every=1, vis_every=0, vis_init=0, vis_final=0, n_iter=3, ramp=0, restart=0,
                adapt="", force=0, monitor=0, poly=0, wd="wd", init="", mach=0.6, attack=0, skew=0, extra="", surf=1, field=1, nsample=3, ext=".csv", bc="", thermal="", num="")

def random_case(r, small=False, vis=None, restartable=False):
    o = {"geom": "none"}
    o["n_dim"] = 2 if r.random() < .8 else r.choice([3, 3, 1])
    nd = o["n_dim"]
    k = r.random(); o["row"] = 2 if k < .66 else 3 if k < .83 else 4 # faces are curved from row size 4 on
    o["lev"] = {1: r.choice([1, 2, 3]), 2: r.choice([1, 2, 2, 3]), 3: 1}[nd]
    if nd == 2 and r.random() < .75:
        o["geom"] = r.choice(["circle", "polygon", "wedge", "two"]); o["geom_seed"] = r.getrandbits(30)
        if r.random() < .15: o["ext"] = ".CSV"
        o["lev"] = max(o["lev"], 2)
    if nd == 3 and r.random() < .6: o["geom"] = "stl"; o["geom_seed"] = r.getrandbits(30); o["lev"] = 2
    if r.random() < .6:
        o["refine"] = r.choice(["near", "extruded", "all", "near"] if o["geom"] != "none" else ["near", "all"]); o["sweeps"] = r.choice([1, 1, 2, 2, 3, 4])
    o["smooth"] = r.choice([0, 1, 2])
    if o["geom"] != "none" and r.random() < .35: o["splits"] = r.choice([1, 1, 2])
    if r.random() < .25: o["visc"] = 1; o["thermal"] = r.choice(["", "heat_flux = 10.", "temperature = 280.", "emissivity = .8"])
    k = r.random()
    if k < .15: o["av"] = "shock"
    elif k < .25: o["av"] = "constant"
    if r.random() < .15: o["fix"] = 1
    o["print_freq"] = r.choice([1, 1, 2, 3])
    o["write_every"] = r.choice([1, 1, 2])
    o["n_iter"] = r.choice([2, 3, 4] if small else [2, 3, 4, 5])
    if vis is None: vis = r.random() < .25
    if vis:
        o["vis_every"] = r.choice([0, 1, 2]); o["vis_init"] = r.choice([0, 1]); o["vis_final"] = r.choice([1, 1, 0])
        o["surf"] = int(r.random() < .7); o["field"] = int(r.random() < .8) or 1 - o["surf"]; o["nsample"] = r.choice([2, 3]); o["skew"] = int(r.random() < .2)
    if r.random() < .15: o["ramp"] = 1
    if r.random() < .2: o["adapt"] = r.choice(["split", "refine"] if o["geom"] != "none" else ["refine"])
    if r.random() < .25 and o["geom"] != "none": o["force"] = 1
    if r.random() < .25: o["monitor"] = 1
    o["wd"] = r.choice(["wd", "wd/", "wd", "sub_directory/", "./wd"])
    if r.random() < .6: o["init"] = r.choice(["blob", "wave"])
    o["mach"] = r.choice([.3, .6, .9, 1.5]); o["attack"] = r.choice([0, 0, .1])
    if r.random() < .35: o["num"] = r.choice(["global", "cheby", "iters", "filter", "elementwise", "elementwise-pde", "admissibility", "velocity", "cap"])
    if nd == 1: o.update(num=o.get("num", "") if o.get("num") in ("global", "cheby", "iters") else "", refine="", adapt="", vis_every=0, vis_init=0, vis_final=0, av="", visc=0)
    if nd == 3: o.update(row=o["row"] if o["row"] == 4 and r.random() < .4 else 2, splits=0, fix=0, av="", sweeps=1, n_iter=2, print_freq=min(2, o["print_freq"]), adapt="" if o["geom"] == "stl" else o.get("adapt", ""), refine="" if o["geom"] == "stl" else o.get("refine", ""))
    if r.random() < .2: o["bc"] = r.choice(["freestream", "outflow", "nonpenetration"])
    return o

def geometry(o):
    """{file name: content}"""
    import random
    r = random.Random(o["geom_seed"])
    g = o["geom"]; res = {}
    def closed(cx, cy, rad, n, jitter):
        pts = []
        for i in range(n):
            a = 2*math.pi*i/n; q = rad*(1 + jitter*(r.random() - .5))
            pts.append((cx + q*math.cos(a), cy + q*math.sin(a)))
        return pts + [pts[0]]
    def csv(pts): return "".join("%.12g, %.12g\n" % p for p in pts)
    if g == "circle": res["g0" + o["ext"]] = csv(closed(r.uniform(-.2, .2), r.uniform(-.2, .2), r.uniform(.3, .5), r.choice([12, 24, 40]), 0))
    elif g == "polygon": res["g0" + o["ext"]] = csv(closed(r.uniform(-.2, .2), r.uniform(-.2, .2), r.uniform(.35, .5), r.randrange(6, 12), .2))
    elif g == "two":
        res["g0" + o["ext"]] = csv(closed(-.4, r.uniform(-.2, .2), .25, 16, 0)); res["g1" + o["ext"]] = csv(closed(.45, r.uniform(-.2, .2), .22, 14, 0))
    elif g == "wedge": res["g0" + o["ext"]] = csv([(r.uniform(-.3, .1), -1.2), (r.uniform(.3, .5), r.uniform(-.7, -.5)), (1.2, r.uniform(-.6, -.4))])
    elif g == "stl":
        c = [r.uniform(-.15, .15) for _ in range(3)]; R = r.uniform(.4, .55); n, m = 6, 5
        def P(i, j): t = math.pi*j/m; p = 2*math.pi*(i%n)/n; return [c[0] + R*math.sin(t)*math.cos(p), c[1] + R*math.sin(t)*math.sin(p), c[2] + R*math.cos(t)]
        s = "solid s\n"
        for i in range(n):
            for j in range(m):
                q = [P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)]
                for t in ((0, 2, 1), (0, 3, 2)):
                    v = [q[k] for k in t]
                    if len({tuple(round(x, 9) for x in w) for w in v}) < 3: continue
                    s += "facet normal 0 0 0\nouter loop\n" + "".join("vertex %.9g %.9g %.9g\n" % tuple(w) for w in v) + "endloop\nendfacet\n"
        res["g0.stl"] = s + "endsolid s\n"
    return res

def working_dir(o): w = o["wd"]; return w if w.endswith("/") else w + "/"

def script(o, restart=False, wd=None, input_data=None, body=None, n_iter=None, tail=""):
    """the input script; `restart`: read mesh and state instead of generating them"""
    o = dict(DEFAULTS, **o); nd = o["n_dim"]; L = []
    a = L.append
    a("n_dim = %d\nrow_size = %d\ninit_ref_level = %d" % (nd, o["row"], o["lev"]))
    if o["num"] == "velocity": a("altitude = 1000.\nfreestream_speed = %g\n%s" % (340*o["mach"], "\n".join("freestream_direction%d = %s" % (d, [1., .2, -.1][d]) for d in range(nd))))
    else: a("freestream_temperature = 300.\nfreestream_pressure = 1e5\nfreestream_mach = %g\nattack = %g" % (o["mach"], float(o["attack"])) if o["attack"] else "freestream_temperature = 300.\nfreestream_pressure = 1e5\nfreestream_mach = %g" % o["mach"])
    for d in range(nd): a("mesh_extreme%d0 = -1.\nmesh_extreme%d1 = 1." % (d, d))
    for i, f in enumerate(sorted(geometry(o))): a("geom%d = {%s}" % (i, f))
    if o["bc"]: a("extremal_bc01 = {%s}" % o["bc"])
    a("n_smooth = %d\nmax_refinement_iters = %d" % (o["smooth"], o["sweeps"]))
    if o["refine"]: a("refine_if = {ref_level < %d & %s}" % (o["lev"] + 1, {"near": "(center0^2" + "".join(" + center%d^2" % d for d in range(1, nd)) + ")^.5 < .7", "extruded": "is_extruded", "all": "true"}[o["refine"]]))
    if o["splits"]: a("init_layer_splits = %d" % o["splits"])
    a("print_freq = %d\nwrite_freq = %d" % (o["print_freq"], o["print_freq"]*o["write_every"]))
    if o["vis_every"]: a("vis_freq = %d" % (o["print_freq"]*o["vis_every"]))
    a("vis_n_sample = %d\nvis_surface = %d\nvis_field = %d\nvis_skew = %d" % (o["nsample"], o["surf"] if o["geom"] != "none" else 0, o["field"], o["skew"]))
    if not o["vis_init"]: a("vis_init = {}")
    if not o["vis_final"]: a("vis_final = {}")
    a("working_dir = {%s}" % (wd or o["wd"]))
    if input_data: a("input_data = {%s}" % input_data)
    a("done = {iteration >= %d}" % (o["print_freq"]*(n_iter if n_iter is not None else o["n_iter"])))
    if o["visc"]:
        a("viscosity_model = {ref_value = .05; ref_temperature = 273.; offset = 111.}\nconductivity_model = {ref_value = 50.; ref_temperature = 273.; offset = 194.}")
        if o["thermal"]: a("thermal_bc = {%s}" % o["thermal"])
    if o["av"] == "shock": a("shock_sub_iters = 2\n$set_shock")
    if o["av"] == "constant": a("art_visc_constant = 2.")
    if o["fix"]: a("fix_therm_admis = true")
    a({"global": "local_time = false", "cheby": "n_cheby_flow = 3", "iters": "flow_iters = 2", "filter": "use_filter = true", "elementwise": "art_visc_width = .3\nelementwise_art_visc = true",
       "elementwise-pde": "art_visc_width = .3\nelementwise_art_visc = true\nelementwise_art_visc_pde = true", "admissibility": "diffusive_admissibility = true", "cap": "max_time_step = 1e-5\nlocal_time = false\nmax_safety = .5"}.get(o["num"], ""))
    if o["ramp"]: a("ramping_initial_iters = %d\n$set_ramping" % (2*o["print_freq"]))
    if o["force"]: a("iterate = iterate + {$compute_force}\nprint_vars = print_vars + force_coef_expr")
    if o["monitor"]: a("monitor_vars = {mon = time_step;}\nmonitor_samples = 4")
    b = {"blob": "(1 + .1*exp(-(pos0^2" + "".join(" + pos%d^2" % d for d in range(1, nd)) + ")/.2))", "wave": "(1 + .05*sin(3*pos0%s))" % (" + 2*pos1" if nd > 1 else "")}.get(o["init"])
    if b: a("init_cond = {%s}" % "\n".join("state%d = freestream%d*%s" % (i, i, b) for i in range(nd + 2)))
    if o["adapt"]:
        cmd = "split_layers" if o["adapt"] == "split" else "refine"
        a("iterate = iterate + {\n case0 = {}\n case1 = {%s}\n $$({case} + (iteration == %d))\n}" % (cmd, o["print_freq"]))
    if o["extra"]: a(o["extra"])
    if body is not None: a(body)
    else:
        a("$start")
        if restart: a("read_mesh\nread_state")
        else: a("$mesh\ninit_state")
        a("$run")
        if o["poly"]: a("export_polymesh")
    if tail: a(tail)
    return "\n".join(L) + "\n"

def files(o, **kw): return dict(geometry(dict(DEFAULTS, **o)), **{"run.hil": script(o, **kw)})

SIMPLER = [("n_dim", 2), ("row", 2), ("lev", 1), ("geom", "none"), ("refine", ""), ("sweeps", 1), ("smooth", 0), ("splits", 0), ("visc", 0), ("av", ""), ("fix", 0), ("print_freq", 1), ("write_every", 1), ("vis_every", 0), ("vis_init", 0), ("vis_final", 0),
           ("n_iter", 2), ("ramp", 0), ("adapt", ""), ("force", 0), ("monitor", 0), ("poly", 0), ("wd", "wd"), ("init", ""), ("bc", ""), ("skew", 0), ("thermal", ""), ("num", ""), ("ext", ".csv")]
def simpler(o):
    for k, v in SIMPLER:
        if o.get(k, DEFAULTS[k]) != v:
            n = dict(o); n[k] = v
            yield n
