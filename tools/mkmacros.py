#!/usr/bin/env python3
"""Writes macros/src/progs.rs: one program per combination of components, declared with the library's macros."""
import os
SYS = {"Cubic": ("ContCubicSystem", ["sys_size", "dim"]), "Circ": ("ContCircSystem", ["sys_size", "dim"]),
       "Cyl": ("ContCylindricalSystem", ["sys_radius", "sys_length", "dim"])}
AG = {"Indep": ("ContPassiveIndepAgent", ["mtype", "itype", "num_agent"]),
      "Merge": ("ContPassiveMergeAgent", ["mtype", "itype", "ptl_radius", "alpha", "num_agent"]),
      "Exp": ("ContPassiveExpAgent", ["mtype", "itype", "gamma", "exp_dim", "strength", "num_agent"]),
      "LJ": ("ContPassiveLJAgent", ["mtype", "itype", "ptl_size", "strength", "num_agent"])}
TI = {"Const": ("ConstStep", ["dt", "tmax"]), "ExpStep": ("ExponentialStep", ["dt_min", "dt_max", "length", "tmax"])}
SI = {"Var": ("VariableSimulation", ["num_ensemble", "idx_set", "seed", "output_dir"]),
      "ParVar": ("ParVariableSimulation", ["num_ensemble", "seed", "n_thrd", "output_dir"]),
      "Process": ("ProcessSimulation", ["num_ensemble", "period", "idx_set", "seed", "output_dir"])}
TG = ["target_pos", "target_size"]
AN = [("time", "TimeAnalysis"), ("vec", "TimeVecAnalysis"), ("proc", "ProcessAnalysis")]
LIST = {"Cubic": "sys_size, f64, dim, usize", "Circ": "sys_size, f64, dim, usize", "Cyl": "sys_radius, f64, sys_length, f64, dim, usize",
        "Indep": "num_agent, usize", "Merge": "ptl_radius, f64, alpha, f64, num_agent, usize", "Exp": "gamma, f64, strength, f64, num_agent, usize",
        "LJ": "ptl_size, f64, strength, f64, num_agent, usize", "Const": "dt, f64, tmax, f64", "ExpStep": "dt_min, f64, dt_max, f64, length, usize, tmax, f64",
        "Var": "idx_set, usize", "ParVar": "n_thrd, usize", "Process": "period, f64, idx_set, usize"}
out = ["// written by tools/mkmacros.py",
       "use crate::child;", "use crate::header::Val;", "use moledyn::prelude::*;", ""]
table = []
TAIL = """    child::started(&[%s], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
"""
def rec(vs):
    return ", ".join('("%s", %s.canon())' % (v, v) for v in vs)
k = 0
for si, s in enumerate(SYS):
    for ai, a in enumerate(AG):
        for ti, t in enumerate(TI):
            for mi, m in enumerate(SI):
                for i in range(3):
                    kind, an = AN[(si + ai + ti + mi + i) % 3]
                    out.append("pub fn p%d() -> Result<(), Error> {" % k)
                    out.append('    simulation!("VM", %s, %s, ContBulkTarget, %s, %s, %s);' % (an, SYS[s][0], AG[a][0], TI[t][0], SI[m][0]))
                    out.append(TAIL % rec(SYS[s][1] + TG + AG[a][1] + TI[t][1] + SI[m][1]))
                    table.append('("%s", "macro", ["%s", "Bulk", "%s", "%s", "%s"], 1, p%d)' % (kind, s, a, t, m, k))
                    k += 1
# the arguments in a vector, with and without leading words to skip; and the plain macro
n = 0
for how in ("fixed", "plain"):
    for ki, (kind, an) in enumerate(AN):
        for skip in ((0, 2) if how == "fixed" else (1,)):
            s, a = list(SYS)[n % 3], list(AG)[n % 4]
            t, m = list(TI)[n % 2], list(SI)[(n // 2) % 3]
            n += 1
            out.append("mod q%d {" % k)
            out.append("use super::*;")
            cd = "%s, sys_arg, %sArguments, [%s]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; %s, agent_arg, %sArguments, [%s]; %s, time_arg, %sArguments, [%s]; {%s, sim_arg, %sArguments, [%s]}" % (
                SYS[s][0], SYS[s][0], LIST[s], AG[a][0], AG[a][0], LIST[a], TI[t][0], TI[t][0], LIST[t], SI[m][0], SI[m][0], LIST[m])
            out.append("construct_dataset!(Data, %s);" % cd)
            out.append("pub fn prog() -> Result<(), Error> {")
            if how == "fixed":
                out.append("    let args: Vec<String> = child::given();")
                mac = "setup_simulation_fixed!(args, 12, %d," % skip
            else:
                mac = "setup_simulation!(args, 20, 1,"
            out.append('    %s %s, "VM", dataset, Data, sys_arg, %s, target_arg, ContBulkTarget, agent_arg, %s, time_arg, %s, sim_arg, %s);' % (mac, an, SYS[s][0], AG[a][0], TI[t][0], SI[m][0]))
            names = []
            for arg, vs in (("sys_arg", SYS[s][1]), ("target_arg", TG), ("agent_arg", AG[a][1]), ("time_arg", TI[t][1]), ("sim_arg", SI[m][1])):
                for v in vs:
                    out.append("    let %s = %s.%s.clone();" % (v, arg, v))
                    names.append(v)
            out.append('    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", %s, sys, sys_arg, ContBulkTarget, target, target_arg, %s, vec_agents, agent_arg, %s, timeiter, time_arg, %s, simulation, sim_arg);' % (
                SYS[s][0], AG[a][0], TI[t][0], SI[m][0]))
            out.append(TAIL % rec(names) + "}")
            table.append('("%s", "%s", ["%s", "Bulk", "%s", "%s", "%s"], %d, q%d::prog)' % (kind, how, s, a, t, m, skip if how == "fixed" else 1, k))
            k += 1
out.append("pub type Prog = (&'static str, &'static str, [&'static str; 5], usize, fn() -> Result<(), Error>);")
out.append("pub const PROGS: [Prog; %d] = [\n    %s,\n];" % (len(table), ",\n    ".join(table)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "macros", "src", "progs.rs"), "w").write("\n".join(out) + "\n")
