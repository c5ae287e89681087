// written by tools/mkmacros.py
use crate::child;
use crate::header::Val;
use moledyn::prelude::*;

pub fn p0() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p1() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p2() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p3() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p4() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p5() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p6() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p7() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p8() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p9() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p10() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p11() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p12() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p13() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p14() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p15() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p16() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p17() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p18() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p19() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p20() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p21() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p22() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p23() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p24() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p25() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p26() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p27() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p28() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p29() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p30() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p31() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p32() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p33() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p34() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p35() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p36() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p37() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p38() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p39() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p40() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p41() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p42() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p43() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p44() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p45() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p46() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p47() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p48() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p49() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p50() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p51() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p52() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p53() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p54() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p55() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p56() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p57() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p58() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p59() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p60() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p61() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p62() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p63() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p64() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p65() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p66() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p67() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p68() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p69() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p70() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p71() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p72() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p73() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p74() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p75() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p76() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p77() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p78() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p79() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p80() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p81() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p82() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p83() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p84() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p85() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p86() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p87() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p88() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p89() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p90() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p91() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p92() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p93() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p94() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p95() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p96() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p97() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p98() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p99() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p100() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p101() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p102() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p103() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p104() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p105() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p106() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p107() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p108() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p109() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p110() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p111() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p112() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p113() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p114() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p115() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p116() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p117() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p118() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p119() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p120() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p121() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p122() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p123() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p124() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p125() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p126() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p127() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p128() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p129() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p130() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p131() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p132() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p133() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p134() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p135() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p136() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p137() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p138() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p139() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p140() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p141() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p142() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p143() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p144() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p145() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p146() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p147() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p148() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p149() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p150() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p151() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p152() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p153() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p154() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p155() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p156() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p157() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p158() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p159() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p160() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p161() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p162() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p163() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p164() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p165() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p166() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p167() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p168() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p169() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p170() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p171() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p172() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p173() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p174() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p175() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p176() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p177() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p178() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p179() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p180() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p181() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p182() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p183() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p184() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p185() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p186() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p187() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p188() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p189() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p190() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p191() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p192() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p193() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p194() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p195() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p196() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p197() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p198() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p199() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p200() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p201() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p202() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p203() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p204() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p205() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p206() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p207() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p208() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p209() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p210() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p211() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p212() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p213() -> Result<(), Error> {
    simulation!("VM", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p214() -> Result<(), Error> {
    simulation!("VM", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

pub fn p215() -> Result<(), Error> {
    simulation!("VM", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

mod q216 {
use super::*;
construct_dataset!(Data, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 0, TimeAnalysis, "VM", dataset, Data, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q217 {
use super::*;
construct_dataset!(Data, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 2, TimeAnalysis, "VM", dataset, Data, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_radius = agent_arg.ptl_radius.clone();
    let alpha = agent_arg.alpha.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q218 {
use super::*;
construct_dataset!(Data, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64]; {ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 0, TimeVecAnalysis, "VM", dataset, Data, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
    let sys_radius = sys_arg.sys_radius.clone();
    let sys_length = sys_arg.sys_length.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let gamma = agent_arg.gamma.clone();
    let exp_dim = agent_arg.exp_dim.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let seed = sim_arg.seed.clone();
    let n_thrd = sim_arg.n_thrd.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q219 {
use super::*;
construct_dataset!(Data, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64]; {ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 2, TimeVecAnalysis, "VM", dataset, Data, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ParVariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_size = agent_arg.ptl_size.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let seed = sim_arg.seed.clone();
    let n_thrd = sim_arg.n_thrd.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q220 {
use super::*;
construct_dataset!(Data, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64]; {ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 0, ProcessAnalysis, "VM", dataset, Data, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ProcessSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let period = sim_arg.period.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q221 {
use super::*;
construct_dataset!(Data, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64]; {ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    let args: Vec<String> = child::given();
    setup_simulation_fixed!(args, 12, 2, ProcessAnalysis, "VM", dataset, Data, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
    let sys_radius = sys_arg.sys_radius.clone();
    let sys_length = sys_arg.sys_length.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_radius = agent_arg.ptl_radius.clone();
    let alpha = agent_arg.alpha.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let period = sim_arg.period.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_radius", ptl_radius.canon()), ("alpha", alpha.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("period", period.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q222 {
use super::*;
construct_dataset!(Data, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    setup_simulation!(args, 20, 1, TimeAnalysis, "VM", dataset, Data, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let gamma = agent_arg.gamma.clone();
    let exp_dim = agent_arg.exp_dim.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("gamma", gamma.canon()), ("exp_dim", exp_dim.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q223 {
use super::*;
construct_dataset!(Data, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
pub fn prog() -> Result<(), Error> {
    setup_simulation!(args, 20, 1, TimeVecAnalysis, "VM", dataset, Data, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_size = agent_arg.ptl_size.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    child::started(&[("sys_size", sys_size.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("ptl_size", ptl_size.canon()), ("strength", strength.canon()), ("num_agent", num_agent.canon()), ("dt_min", dt_min.canon()), ("dt_max", dt_max.canon()), ("length", length.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("idx_set", idx_set.canon()), ("seed", seed.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
mod q224 {
use super::*;
construct_dataset!(Data, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64]; {ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]});
pub fn prog() -> Result<(), Error> {
    setup_simulation!(args, 20, 1, ProcessAnalysis, "VM", dataset, Data, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
    let sys_radius = sys_arg.sys_radius.clone();
    let sys_length = sys_arg.sys_length.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let seed = sim_arg.seed.clone();
    let n_thrd = sim_arg.n_thrd.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "VM", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
    child::started(&[("sys_radius", sys_radius.canon()), ("sys_length", sys_length.canon()), ("dim", dim.canon()), ("target_pos", target_pos.canon()), ("target_size", target_size.canon()), ("mtype", mtype.canon()), ("itype", itype.canon()), ("num_agent", num_agent.canon()), ("dt", dt.canon()), ("tmax", tmax.canon()), ("num_ensemble", num_ensemble.canon()), ("seed", seed.canon()), ("n_thrd", n_thrd.canon()), ("output_dir", output_dir.canon())], vec_agents.len());
    let _ = (&sys, &target, &timeiter, &simulation, &dataset);
    for row in child::rows() { write!(&mut writer, "{}", row).map_err(Error::make_error_io)?; child::maybe_die(); }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
}
pub type Prog = (&'static str, &'static str, [&'static str; 5], usize, fn() -> Result<(), Error>);
pub const PROGS: [Prog; 225] = [
    ("time", "macro", ["Cubic", "Bulk", "Indep", "Const", "Var"], 1, p0),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "Const", "Var"], 1, p1),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "Const", "Var"], 1, p2),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "Const", "ParVar"], 1, p3),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "Const", "ParVar"], 1, p4),
    ("time", "macro", ["Cubic", "Bulk", "Indep", "Const", "ParVar"], 1, p5),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "Const", "Process"], 1, p6),
    ("time", "macro", ["Cubic", "Bulk", "Indep", "Const", "Process"], 1, p7),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "Const", "Process"], 1, p8),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Var"], 1, p9),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Var"], 1, p10),
    ("time", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Var"], 1, p11),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p12),
    ("time", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p13),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p14),
    ("time", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Process"], 1, p15),
    ("vec", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Process"], 1, p16),
    ("proc", "macro", ["Cubic", "Bulk", "Indep", "ExpStep", "Process"], 1, p17),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "Const", "Var"], 1, p18),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "Const", "Var"], 1, p19),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "Const", "Var"], 1, p20),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "Const", "ParVar"], 1, p21),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "Const", "ParVar"], 1, p22),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "Const", "ParVar"], 1, p23),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "Const", "Process"], 1, p24),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "Const", "Process"], 1, p25),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "Const", "Process"], 1, p26),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Var"], 1, p27),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Var"], 1, p28),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Var"], 1, p29),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p30),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p31),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p32),
    ("vec", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Process"], 1, p33),
    ("proc", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Process"], 1, p34),
    ("time", "macro", ["Cubic", "Bulk", "Merge", "ExpStep", "Process"], 1, p35),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "Const", "Var"], 1, p36),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "Const", "Var"], 1, p37),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "Const", "Var"], 1, p38),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "Const", "ParVar"], 1, p39),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "Const", "ParVar"], 1, p40),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "Const", "ParVar"], 1, p41),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "Const", "Process"], 1, p42),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "Const", "Process"], 1, p43),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "Const", "Process"], 1, p44),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Var"], 1, p45),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Var"], 1, p46),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Var"], 1, p47),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p48),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p49),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p50),
    ("proc", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Process"], 1, p51),
    ("time", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Process"], 1, p52),
    ("vec", "macro", ["Cubic", "Bulk", "Exp", "ExpStep", "Process"], 1, p53),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "Const", "Var"], 1, p54),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "Const", "Var"], 1, p55),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "Const", "Var"], 1, p56),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "Const", "ParVar"], 1, p57),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "Const", "ParVar"], 1, p58),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "Const", "ParVar"], 1, p59),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "Const", "Process"], 1, p60),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "Const", "Process"], 1, p61),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "Const", "Process"], 1, p62),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Var"], 1, p63),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Var"], 1, p64),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Var"], 1, p65),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p66),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p67),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p68),
    ("time", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Process"], 1, p69),
    ("vec", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Process"], 1, p70),
    ("proc", "macro", ["Cubic", "Bulk", "LJ", "ExpStep", "Process"], 1, p71),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "Const", "Var"], 1, p72),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "Const", "Var"], 1, p73),
    ("time", "macro", ["Circ", "Bulk", "Indep", "Const", "Var"], 1, p74),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "Const", "ParVar"], 1, p75),
    ("time", "macro", ["Circ", "Bulk", "Indep", "Const", "ParVar"], 1, p76),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "Const", "ParVar"], 1, p77),
    ("time", "macro", ["Circ", "Bulk", "Indep", "Const", "Process"], 1, p78),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "Const", "Process"], 1, p79),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "Const", "Process"], 1, p80),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Var"], 1, p81),
    ("time", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Var"], 1, p82),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Var"], 1, p83),
    ("time", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p84),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p85),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p86),
    ("vec", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Process"], 1, p87),
    ("proc", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Process"], 1, p88),
    ("time", "macro", ["Circ", "Bulk", "Indep", "ExpStep", "Process"], 1, p89),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "Const", "Var"], 1, p90),
    ("time", "macro", ["Circ", "Bulk", "Merge", "Const", "Var"], 1, p91),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "Const", "Var"], 1, p92),
    ("time", "macro", ["Circ", "Bulk", "Merge", "Const", "ParVar"], 1, p93),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "Const", "ParVar"], 1, p94),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "Const", "ParVar"], 1, p95),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "Const", "Process"], 1, p96),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "Const", "Process"], 1, p97),
    ("time", "macro", ["Circ", "Bulk", "Merge", "Const", "Process"], 1, p98),
    ("time", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Var"], 1, p99),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Var"], 1, p100),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Var"], 1, p101),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p102),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p103),
    ("time", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p104),
    ("proc", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Process"], 1, p105),
    ("time", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Process"], 1, p106),
    ("vec", "macro", ["Circ", "Bulk", "Merge", "ExpStep", "Process"], 1, p107),
    ("time", "macro", ["Circ", "Bulk", "Exp", "Const", "Var"], 1, p108),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "Const", "Var"], 1, p109),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "Const", "Var"], 1, p110),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "Const", "ParVar"], 1, p111),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "Const", "ParVar"], 1, p112),
    ("time", "macro", ["Circ", "Bulk", "Exp", "Const", "ParVar"], 1, p113),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "Const", "Process"], 1, p114),
    ("time", "macro", ["Circ", "Bulk", "Exp", "Const", "Process"], 1, p115),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "Const", "Process"], 1, p116),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Var"], 1, p117),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Var"], 1, p118),
    ("time", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Var"], 1, p119),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p120),
    ("time", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p121),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p122),
    ("time", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Process"], 1, p123),
    ("vec", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Process"], 1, p124),
    ("proc", "macro", ["Circ", "Bulk", "Exp", "ExpStep", "Process"], 1, p125),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "Const", "Var"], 1, p126),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "Const", "Var"], 1, p127),
    ("time", "macro", ["Circ", "Bulk", "LJ", "Const", "Var"], 1, p128),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "Const", "ParVar"], 1, p129),
    ("time", "macro", ["Circ", "Bulk", "LJ", "Const", "ParVar"], 1, p130),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "Const", "ParVar"], 1, p131),
    ("time", "macro", ["Circ", "Bulk", "LJ", "Const", "Process"], 1, p132),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "Const", "Process"], 1, p133),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "Const", "Process"], 1, p134),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 1, p135),
    ("time", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 1, p136),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 1, p137),
    ("time", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p138),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p139),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p140),
    ("vec", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Process"], 1, p141),
    ("proc", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Process"], 1, p142),
    ("time", "macro", ["Circ", "Bulk", "LJ", "ExpStep", "Process"], 1, p143),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "Const", "Var"], 1, p144),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "Const", "Var"], 1, p145),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "Const", "Var"], 1, p146),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "Const", "ParVar"], 1, p147),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "Const", "ParVar"], 1, p148),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "Const", "ParVar"], 1, p149),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "Const", "Process"], 1, p150),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "Const", "Process"], 1, p151),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "Const", "Process"], 1, p152),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Var"], 1, p153),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Var"], 1, p154),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Var"], 1, p155),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p156),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p157),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "ParVar"], 1, p158),
    ("proc", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Process"], 1, p159),
    ("time", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Process"], 1, p160),
    ("vec", "macro", ["Cyl", "Bulk", "Indep", "ExpStep", "Process"], 1, p161),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "Const", "Var"], 1, p162),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "Const", "Var"], 1, p163),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "Const", "Var"], 1, p164),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "Const", "ParVar"], 1, p165),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "Const", "ParVar"], 1, p166),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "Const", "ParVar"], 1, p167),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "Const", "Process"], 1, p168),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "Const", "Process"], 1, p169),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "Const", "Process"], 1, p170),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Var"], 1, p171),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Var"], 1, p172),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Var"], 1, p173),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p174),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p175),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "ParVar"], 1, p176),
    ("time", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Process"], 1, p177),
    ("vec", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Process"], 1, p178),
    ("proc", "macro", ["Cyl", "Bulk", "Merge", "ExpStep", "Process"], 1, p179),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "Const", "Var"], 1, p180),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "Const", "Var"], 1, p181),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "Const", "Var"], 1, p182),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 1, p183),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 1, p184),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 1, p185),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "Const", "Process"], 1, p186),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "Const", "Process"], 1, p187),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "Const", "Process"], 1, p188),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Var"], 1, p189),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Var"], 1, p190),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Var"], 1, p191),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p192),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p193),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "ParVar"], 1, p194),
    ("vec", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Process"], 1, p195),
    ("proc", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Process"], 1, p196),
    ("time", "macro", ["Cyl", "Bulk", "Exp", "ExpStep", "Process"], 1, p197),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "Const", "Var"], 1, p198),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "Const", "Var"], 1, p199),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "Const", "Var"], 1, p200),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "Const", "ParVar"], 1, p201),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "Const", "ParVar"], 1, p202),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "Const", "ParVar"], 1, p203),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "Const", "Process"], 1, p204),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "Const", "Process"], 1, p205),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "Const", "Process"], 1, p206),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Var"], 1, p207),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Var"], 1, p208),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Var"], 1, p209),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p210),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p211),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "ParVar"], 1, p212),
    ("proc", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Process"], 1, p213),
    ("time", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Process"], 1, p214),
    ("vec", "macro", ["Cyl", "Bulk", "LJ", "ExpStep", "Process"], 1, p215),
    ("time", "fixed", ["Cubic", "Bulk", "Indep", "Const", "Var"], 0, q216::prog),
    ("time", "fixed", ["Circ", "Bulk", "Merge", "ExpStep", "Var"], 2, q217::prog),
    ("vec", "fixed", ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 0, q218::prog),
    ("vec", "fixed", ["Cubic", "Bulk", "LJ", "ExpStep", "ParVar"], 2, q219::prog),
    ("proc", "fixed", ["Circ", "Bulk", "Indep", "Const", "Process"], 0, q220::prog),
    ("proc", "fixed", ["Cyl", "Bulk", "Merge", "ExpStep", "Process"], 2, q221::prog),
    ("time", "plain", ["Cubic", "Bulk", "Exp", "Const", "Var"], 1, q222::prog),
    ("vec", "plain", ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 1, q223::prog),
    ("proc", "plain", ["Cyl", "Bulk", "Indep", "Const", "ParVar"], 1, q224::prog),
];
