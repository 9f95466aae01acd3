// Generated by tools/gen_programs.py; do not edit.
#![allow(unused_variables, unused_imports, unused_mut, dead_code, unused_assignments)]
use crate::jobs;
use crate::md;
use crate::meta::*;
use moledyn::prelude::*;

fn p00() -> Result<(), Error> {
    simulation!("RTS_N_PTL_00", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_00"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p01() -> Result<(), Error> {
    simulation!("RTS_N_PTL_01", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_01"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ParVariableSimulationArguments = <ParVariableSimulation as Argument<ParVariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p02() -> Result<(), Error> {
    simulation!("RTS_N_PTL_02", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_02"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ProcessSimulationArguments = <ProcessSimulation as Argument<ProcessSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p03() -> Result<(), Error> {
    simulation!("RTS_MERGE_03", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_MERGE_03"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveMergeAgentArguments = <ContPassiveMergeAgent as Argument<ContPassiveMergeAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p04() -> Result<(), Error> {
    simulation!("RTS_MERGE_04", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_MERGE_04"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveMergeAgentArguments = <ContPassiveMergeAgent as Argument<ContPassiveMergeAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ParVariableSimulationArguments = <ParVariableSimulation as Argument<ParVariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p05() -> Result<(), Error> {
    simulation!("RTS_MERGE_05", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_MERGE_05"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveMergeAgentArguments = <ContPassiveMergeAgent as Argument<ContPassiveMergeAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ProcessSimulationArguments = <ProcessSimulation as Argument<ProcessSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p06() -> Result<(), Error> {
    simulation!("RTS_EXP_06", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_EXP_06"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveExpAgentArguments = <ContPassiveExpAgent as Argument<ContPassiveExpAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p07() -> Result<(), Error> {
    simulation!("RTS_EXP_07", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_EXP_07"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveExpAgentArguments = <ContPassiveExpAgent as Argument<ContPassiveExpAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ParVariableSimulationArguments = <ParVariableSimulation as Argument<ParVariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p08() -> Result<(), Error> {
    simulation!("RTS_EXP_08", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_EXP_08"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveExpAgentArguments = <ContPassiveExpAgent as Argument<ContPassiveExpAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ProcessSimulationArguments = <ProcessSimulation as Argument<ProcessSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p09() -> Result<(), Error> {
    simulation!("RTS_LJ_09", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_LJ_09"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveLJAgentArguments = <ContPassiveLJAgent as Argument<ContPassiveLJAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p10() -> Result<(), Error> {
    simulation!("RTS_LJ_10", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_LJ_10"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveLJAgentArguments = <ContPassiveLJAgent as Argument<ContPassiveLJAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ParVariableSimulationArguments = <ParVariableSimulation as Argument<ParVariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p11() -> Result<(), Error> {
    simulation!("RTS_LJ_11", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_LJ_11"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveLJAgentArguments = <ContPassiveLJAgent as Argument<ContPassiveLJAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ProcessSimulationArguments = <ProcessSimulation as Argument<ProcessSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p12() -> Result<(), Error> {
    simulation!("RTS_N_PTL_12", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_12"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p13() -> Result<(), Error> {
    simulation!("RTS_MERGE_13", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_MERGE_13"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveMergeAgentArguments = <ContPassiveMergeAgent as Argument<ContPassiveMergeAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p14() -> Result<(), Error> {
    simulation!("RTS_N_PTL_14", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_14"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p15() -> Result<(), Error> {
    simulation!("RTS_EXP_15", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_EXP_15"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveExpAgentArguments = <ContPassiveExpAgent as Argument<ContPassiveExpAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p16() -> Result<(), Error> {
    construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
    setup_simulation!(args, 20, 1, TimeAnalysis, "RTS_N_PTL_16", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "RTS_N_PTL_16", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_16"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p17() -> Result<(), Error> {
    construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64]; VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]);
    let args: Vec<String> = jobs::fixed_args();
    setup_simulation_fixed!(args, 15, 0, TimeAnalysis, "RTS_N_PTL_17", dataset, SimulationData, sys_arg, ContCircSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "RTS_N_PTL_17", ContCircSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveIndepAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_N_PTL_17"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCircSystemArguments = <ContCircSystem as Argument<ContCircSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveIndepAgentArguments = <ContPassiveIndepAgent as Argument<ContPassiveIndepAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p18() -> Result<(), Error> {
    construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [num_agent, usize, ptl_radius, f64, alpha, f64]; ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize]; {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
    let args: Vec<String> = jobs::fixed_args();
    setup_simulation_fixed!(args, 10, 1, TimeVecAnalysis, "RTS_MERGE_18", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_radius = agent_arg.ptl_radius.clone();
    let alpha = agent_arg.alpha.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "RTS_MERGE_18", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveMergeAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_radius", format!("{:?}", ptl_radius)), ("alpha", format!("{:?}", alpha)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_MERGE_18"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveMergeAgentArguments = <ContPassiveMergeAgent as Argument<ContPassiveMergeAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: VariableSimulationArguments = <VariableSimulation as Argument<VariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p19() -> Result<(), Error> {
    construct_dataset!(SimulationData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [dim, usize, sys_length, f64, sys_radius, f64]; ContBulkTarget, target_arg, ContBulkTargetArguments, []; ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [strength, f64, ptl_size, f64]; ExponentialStep, time_arg, ExponentialStepArguments, [tmax, f64]; {ProcessSimulation, sim_arg, ProcessSimulationArguments, [idx_set, usize, period, f64]});
    let args: Vec<String> = jobs::fixed_args();
    setup_simulation_fixed!(args, 3, 2, ProcessAnalysis, "RTS_LJ_19", dataset, SimulationData, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveLJAgent, time_arg, ExponentialStep, sim_arg, ProcessSimulation);
    let sys_radius = sys_arg.sys_radius.clone();
    let sys_length = sys_arg.sys_length.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let ptl_size = agent_arg.ptl_size.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt_min = time_arg.dt_min.clone();
    let dt_max = time_arg.dt_max.clone();
    let length = time_arg.length.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let period = sim_arg.period.clone();
    let idx_set = sim_arg.idx_set.clone();
    let seed = sim_arg.seed.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "RTS_LJ_19", ContCylindricalSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveLJAgent, vec_agents, agent_arg, ExponentialStep, timeiter, time_arg, ProcessSimulation, simulation, sim_arg);
    jobs::report(
        vec![("sys_radius", format!("{:?}", sys_radius)), ("sys_length", format!("{:?}", sys_length)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("ptl_size", format!("{:?}", ptl_size)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt_min", format!("{:?}", dt_min)), ("dt_max", format!("{:?}", dt_max)), ("length", format!("{:?}", length)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("period", format!("{:?}", period)), ("idx_set", format!("{:?}", idx_set)), ("seed", format!("{:?}", seed)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_LJ_19"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCylindricalSystemArguments = <ContCylindricalSystem as Argument<ContCylindricalSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveLJAgentArguments = <ContPassiveLJAgent as Argument<ContPassiveLJAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ExponentialStepArguments = <ExponentialStep as Argument<ExponentialStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ProcessSimulationArguments = <ProcessSimulation as Argument<ProcessSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::ProcessAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

fn p20() -> Result<(), Error> {
    construct_dataset!(SimulationData, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64]; ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]; ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, num_agent, usize]; ConstStep, time_arg, ConstStepArguments, [dt, f64]; ParVariableSimulation, sim_arg, ParVariableSimulationArguments, [n_thrd, usize]);
    setup_simulation!(args, 40, 1, TimeVecAnalysis, "RTS_EXP_20", dataset, SimulationData, sys_arg, ContCubicSystem, target_arg, ContBulkTarget, agent_arg, ContPassiveExpAgent, time_arg, ConstStep, sim_arg, ParVariableSimulation);
    let sys_size = sys_arg.sys_size.clone();
    let dim = sys_arg.dim.clone();
    let target_pos = target_arg.target_pos.clone();
    let target_size = target_arg.target_size.clone();
    let mtype = agent_arg.mtype.clone();
    let itype = agent_arg.itype.clone();
    let gamma = agent_arg.gamma.clone();
    let exp_dim = agent_arg.exp_dim.clone();
    let strength = agent_arg.strength.clone();
    let num_agent = agent_arg.num_agent.clone();
    let dt = time_arg.dt.clone();
    let tmax = time_arg.tmax.clone();
    let num_ensemble = sim_arg.num_ensemble.clone();
    let seed = sim_arg.seed.clone();
    let n_thrd = sim_arg.n_thrd.clone();
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "RTS_EXP_20", ContCubicSystem, sys, sys_arg, ContBulkTarget, target, target_arg, ContPassiveExpAgent, vec_agents, agent_arg, ConstStep, timeiter, time_arg, ParVariableSimulation, simulation, sim_arg);
    jobs::report(
        vec![("sys_size", format!("{:?}", sys_size)), ("dim", format!("{:?}", dim)), ("target_pos", format!("{:?}", target_pos)), ("target_size", format!("{:?}", target_size)), ("mtype", format!("{:?}", mtype)), ("itype", format!("{:?}", itype)), ("gamma", format!("{:?}", gamma)), ("exp_dim", format!("{:?}", exp_dim)), ("strength", format!("{:?}", strength)), ("num_agent", format!("{:?}", num_agent)), ("dt", format!("{:?}", dt)), ("tmax", format!("{:?}", tmax)), ("num_ensemble", format!("{:?}", num_ensemble)), ("seed", format!("{:?}", seed)), ("n_thrd", format!("{:?}", n_thrd)), ("output_dir", format!("{:?}", output_dir))],
        vec![format!("{:?}", sys_arg), format!("{:?}", target_arg), format!("{:?}", agent_arg), format!("{:?}", time_arg), format!("{:?}", sim_arg)],
        vec![format!("{:?}", sys), format!("{:?}", target), format!("{:?}", vec_agents), format!("{:?}", timeiter)],
        format!("{:?}", dataset), dataset.export_file_removed_idx("RTS_EXP_20"));
    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![
        { let a: ContCubicSystemArguments = <ContCubicSystem as Argument<ContCubicSystemArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContBulkTargetArguments = <ContBulkTarget as Argument<ContBulkTargetArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ContPassiveExpAgentArguments = <ContPassiveExpAgent as Argument<ContPassiveExpAgentArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ConstStepArguments = <ConstStep as Argument<ConstStepArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
        { let a: ParVariableSimulationArguments = <ParVariableSimulation as Argument<ParVariableSimulationArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },
    ], ())));
    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::TimeVecAnalysis };
    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))
}

pub static PROGRAMS: &[Prog] = &[
    Prog { name: "p00", prefix: "RTS_N_PTL_00", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ConstStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "dt", "tmax"], sim_ds: &["idx_set"], run: p00 },
    Prog { name: "p01", prefix: "RTS_N_PTL_01", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ExponentialStep, Part::ParVariableSimulation], an: An::ProcessAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["n_thrd"], run: p01 },
    Prog { name: "p02", prefix: "RTS_N_PTL_02", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ConstStep, Part::ProcessSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_radius", "sys_length", "dim", "target_size", "num_agent", "dt", "tmax"], sim_ds: &["period", "idx_set"], run: p02 },
    Prog { name: "p03", prefix: "RTS_MERGE_03", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveMergeAgent, Part::ExponentialStep, Part::VariableSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "ptl_radius", "alpha", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["idx_set"], run: p03 },
    Prog { name: "p04", prefix: "RTS_MERGE_04", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveMergeAgent, Part::ConstStep, Part::ParVariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_radius", "sys_length", "dim", "target_size", "ptl_radius", "alpha", "num_agent", "dt", "tmax"], sim_ds: &["n_thrd"], run: p04 },
    Prog { name: "p05", prefix: "RTS_MERGE_05", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveMergeAgent, Part::ExponentialStep, Part::ProcessSimulation], an: An::ProcessAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "ptl_radius", "alpha", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["period", "idx_set"], run: p05 },
    Prog { name: "p06", prefix: "RTS_EXP_06", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveExpAgent, Part::ConstStep, Part::VariableSimulation], an: An::ProcessAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_radius", "sys_length", "dim", "target_size", "gamma", "strength", "num_agent", "dt", "tmax"], sim_ds: &["idx_set"], run: p06 },
    Prog { name: "p07", prefix: "RTS_EXP_07", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveExpAgent, Part::ExponentialStep, Part::ParVariableSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "gamma", "strength", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["n_thrd"], run: p07 },
    Prog { name: "p08", prefix: "RTS_EXP_08", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveExpAgent, Part::ExponentialStep, Part::ProcessSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "gamma", "strength", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["period", "idx_set"], run: p08 },
    Prog { name: "p09", prefix: "RTS_LJ_09", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveLJAgent, Part::ExponentialStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "ptl_size", "strength", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["idx_set"], run: p09 },
    Prog { name: "p10", prefix: "RTS_LJ_10", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveLJAgent, Part::ConstStep, Part::ParVariableSimulation], an: An::ProcessAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "ptl_size", "strength", "num_agent", "dt", "tmax"], sim_ds: &["n_thrd"], run: p10 },
    Prog { name: "p11", prefix: "RTS_LJ_11", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveLJAgent, Part::ConstStep, Part::ProcessSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_radius", "sys_length", "dim", "target_size", "ptl_size", "strength", "num_agent", "dt", "tmax"], sim_ds: &["period", "idx_set"], run: p11 },
    Prog { name: "p12", prefix: "RTS_N_PTL_12", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ExponentialStep, Part::VariableSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["idx_set"], run: p12 },
    Prog { name: "p13", prefix: "RTS_MERGE_13", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveMergeAgent, Part::ConstStep, Part::VariableSimulation], an: An::ProcessAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_radius", "sys_length", "dim", "target_size", "ptl_radius", "alpha", "num_agent", "dt", "tmax"], sim_ds: &["idx_set"], run: p13 },
    Prog { name: "p14", prefix: "RTS_N_PTL_14", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ConstStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "dt", "tmax"], sim_ds: &["idx_set"], run: p14 },
    Prog { name: "p15", prefix: "RTS_EXP_15", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveExpAgent, Part::ExponentialStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "gamma", "strength", "num_agent", "dt_min", "dt_max", "length", "tmax"], sim_ds: &["idx_set"], run: p15 },
    Prog { name: "p16", prefix: "RTS_N_PTL_16", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ConstStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 1, fixed: false, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "dt"], sim_ds: &["idx_set"], run: p16 },
    Prog { name: "p17", prefix: "RTS_N_PTL_17", parts: [Part::ContCircSystem, Part::ContBulkTarget, Part::ContPassiveIndepAgent, Part::ConstStep, Part::VariableSimulation], an: An::TimeAnalysis, skip: 0, fixed: true, grouped: false, ds: &["sys_size", "dim", "target_size", "num_agent", "dt", "idx_set"], sim_ds: &[], run: p17 },
    Prog { name: "p18", prefix: "RTS_MERGE_18", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveMergeAgent, Part::ExponentialStep, Part::VariableSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: true, grouped: true, ds: &["sys_size", "dim", "target_size", "num_agent", "ptl_radius", "alpha", "dt_min", "dt_max", "length"], sim_ds: &["idx_set"], run: p18 },
    Prog { name: "p19", prefix: "RTS_LJ_19", parts: [Part::ContCylindricalSystem, Part::ContBulkTarget, Part::ContPassiveLJAgent, Part::ExponentialStep, Part::ProcessSimulation], an: An::ProcessAnalysis, skip: 2, fixed: true, grouped: true, ds: &["dim", "sys_length", "sys_radius", "strength", "ptl_size", "tmax"], sim_ds: &["idx_set", "period"], run: p19 },
    Prog { name: "p20", prefix: "RTS_EXP_20", parts: [Part::ContCubicSystem, Part::ContBulkTarget, Part::ContPassiveExpAgent, Part::ConstStep, Part::ParVariableSimulation], an: An::TimeVecAnalysis, skip: 1, fixed: false, grouped: false, ds: &["sys_size", "target_size", "gamma", "num_agent", "dt", "n_thrd"], sim_ds: &[], run: p20 },
];
