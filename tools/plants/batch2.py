import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n#[allow(unused_imports)] use std::fs;\n"
DS = """construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
#[allow(dead_code)]
fn header(size : f64, set : usize) -> String{
    format!("==== D ====\\nsys_type       : Continuous circular system\\nsys_size       : {}\\ndim            : 2\\n", size)
    + &{let t = ContBulkTargetArguments::new(Position::new(vec![0.0, 0.0]), 1.0); t.print_configuration(15)}
    + &{let a = ContPassiveIndepAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 1); a.print_configuration(15)}
    + &{let c = ConstStepArguments::new(0.1, 0.0); c.print_configuration(15)}
    + &{let v = VariableSimulationArguments::new(10, set, 1, "x".to_string()); v.print_configuration(15)}
    + "==== DATA STARTS ====\\n"
}
#[allow(dead_code)]
fn file(size : f64, set : usize, data : &str) -> String{
    let s = ContCircSystemArguments::new(size, 2).print_configuration(15);
    let h = header(size, set);
    let rest : Vec<&str> = h.splitn(5, '\\n').collect();
    format!("==== D ====\\n{}{}{}", s, rest[4], data)
}
"""
plant("P02", "C02", [("src/iterator.rs", """        self.current[0] = self.head;
        self.current[1] = None;
""", """        let first = self.links.get(0).map_or(false, |x| x.prev.is_none() && x.next.map_or(true, |n| self.links[n].prev == Some(0)));
        self.current[0] = if first { Some(0) } else { self.head };
        self.current[1] = None;
""")],
 "a list that was emptied, its first element last, and filled again",
 "a sweep starts from the deleted first element and ends with it",
 H + """fn main(){
    let mut l = LinkedList::from(vec![0, 1, 2]);
    l.del(1).unwrap(); l.del(2).unwrap(); l.del(0).unwrap();
    l.push(3); l.push(4);
    let mut v = vec![];
    l.into_iter();
    while let Some(x) = l.get_mut(){ v.push(*x); }
    println!("{:?}", v);
    assert_eq!(v, vec![3, 4]);
}
""")
plant("P05", "C05", [("src/time_mod/mod.rs", """                else{
                    return None;
                }
            },
            _ => {""", """                else{
                    self.current = std::f64::INFINITY;          // over
                    None
                }
            },
            _ => {""")],
 "a growing scheme that came to its maximum, whose maximum is then raised",
 "nothing is emitted any more although the maximum is not reached",
 H + """fn main(){
    let mut t = ExponentialStep::new(0.5, 8.0, 20).unwrap();
    t.set_tmax(1.25).unwrap();
    while let Some(_) = t.next(){}
    t.set_tmax(2.25).unwrap();
    let v : Vec<f64> = t.take(10).collect();
    println!("{:?}", v);
    assert_eq!(v, vec![1.5, 2.0]);
}
""")
plant("P08", "C08", [("src/agent_mod/cont_passive_lj.rs", """        loop{
            sys.random_pos_to_vec(rng, &mut self.pos)?;   // System 내부의 random position을 받는다
""", """        for _ in 0..256{
            sys.random_pos_to_vec(rng, &mut self.pos)?;   // System 내부의 random position을 받는다
""")],
 "renewal with a target that fills nearly the whole system",
 "after 256 attempts the agent stays where it is, inside the target",
 H + """fn main(){
    let sys = ContCircSystem::new(10.0, 2);
    let target = ContBulkTarget::new(Position::new(vec![0.0, 0.0]), 9.99);
    let mut rng = rng_seed(7);
    let mut a = ContPassiveLJAgent::new(InteractType::LennardJones(1.0), MoveType::Brownian(1.0), Position::new(vec![9.995, 0.0]), 1.0);
    for _ in 0..40{
        a.renew_uniform(&sys, &target, &mut rng).unwrap();
        assert_eq!(target.check_find(&a.pos), Ok(false));
    }
}
""")
plant("P10", "C10", [("src/iterator.rs", """                    self.links[i].prev = Some(i - 1);
                    self.links[i].next = Some(i + 1);
                    self.links[i].alive = true;
                }
                return Ok(());""", """                    if !self.links[i].alive{            // link deleted nodes in again
                        self.links[i] = Node::from(Some(i - 1), Some(i + 1));
                    }
                }
                return Ok(());""")],
 "a run in which agents in the middle of the list were absorbed, followed by another run with the same list",
 "the neighbours of an absorbed agent still point past it: the next run misses agents",
 H + """fn main(){
    let a = ContPassiveMergeAgent::new(MoveType::Brownian(1.0), Position::new(vec![0.0, 0.0]), 0.1, 1.0);
    let mut l = LinkedList::from(vec![a.clone(), a.clone(), a.clone(), a.clone(), a.clone()]);
    l.merge(1, 2).unwrap();
    l.connect_all().unwrap();
    let mut n = 0;
    l.into_iter();
    while let Some(_) = l.get(){ n += 1; }
    println!("{}", n);
    assert_eq!(n, 5);
}
""")
plant("P13", "C13", [("src/analysis.rs", """            let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                Ok(ds) => ds,
                Err(_err) => {continue;},
            };
""", """            let (dataset, mut lines) : (H, Lines<BufReader<File>>) = match H::from_file(path.clone()){
                Ok(ds) => ds,
                Err(_err) => {
                    if hashmap.len() > 1{ break; }
                    continue;
                },
            };
""", 1)],
 "a file that is no result, read after results of two configurations",
 "everything after the foreign file is left out of the analysis",
 H + DS + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    let mut n = 0;
    for i in 0..30{
        fs::write(format!("{}/f{}.dat", d, i), file(10.0 + (i % 3) as f64, i, "1.0\\n2.0\\n")).unwrap();
        fs::write(format!("{}/g{}.txt", d, i), "nothing\\n").unwrap();
        n += 2;
    }
    let args : Vec<String> = vec!["0.5".into(), "8.5".into(), "10".into(), d.clone()];
    TimeAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap();
    let out = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).find(|p| p.is_dir()).unwrap();
    let t = fs::read_to_string(out.join("brief_result.dat")).unwrap();
    let m : usize = t.lines().skip(1).map(|l| l.split_whitespace().last().unwrap().parse::<usize>().unwrap()).sum();
    println!("{} {}", n, m);
    assert_eq!(n, m);
}
""")
plant("P14", "C14", [("src/analysis.rs", """            if check{
                writer.write_fmt(format_args!("{}\\n", string)).map_err(Error::make_error_io)?;
            }

            time *= lbin_size;
            i += 1;""", """            i += 1;
            if !check{
                continue;
            }
            writer.write_fmt(format_args!("{}\\n", string)).map_err(Error::make_error_io)?;
            time *= lbin_size;""")],
 "vectors of times with an empty logarithmic bin before a filled one",
 "the centre exported with the filled bin is that of an earlier one",
 H + DS + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/f.dat", d), file(10.0, 1, "1.5 6.0\\n1.5 6.0\\n")).unwrap();
    let args : Vec<String> = vec!["2".into(), "1.0".into(), "8.0".into(), "1.0".into(), "2.0".into(), d.clone()];
    TimeVecAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap();
    let out = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).find(|p| p.is_dir()).unwrap();
    let h = fs::read_dir(out.join("logarithmic_distribution")).unwrap().next().unwrap().unwrap().path();
    let t = fs::read_to_string(h).unwrap();
    println!("{}", t);
    let c : f64 = t.lines().nth(1).unwrap().split_whitespace().next().unwrap().parse().unwrap();
    assert!(c > 4.0 && c < 8.0);
}
""")
plant("P15", "C15", [("src/analysis.rs", """        let en = self.tot_point as f64;

        self.long_term_mean""", """        let en = self.count.iter().sum::<usize>().max(1) as f64;

        self.long_term_mean""")],
 "a recorded process with points later than the range of the histogram",
 "mean and deviation over the whole process are divided by the points within the range only",
 H + DS + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/f.dat", d), file(10.0, 1, "(1.5,2.0) (2.5,2.0) (100.0,2.0) (200.0,2.0)\\n")).unwrap();
    let args : Vec<String> = vec!["1.0".into(), "8.0".into(), "1.0".into(), "2.0".into(), d.clone()];
    ProcessAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap();
    let out = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).find(|p| p.is_dir()).unwrap();
    let t = fs::read_to_string(out.join("brief_data.dat")).unwrap();
    println!("{}", t);
    let w : Vec<&str> = t.lines().nth(1).unwrap().split_whitespace().collect();
    let m : f64 = w[w.len() - 3].parse().unwrap();
    assert!((m - 2.0).abs() < 1e-9);
}
""")
plant("P16", "C16", [("src/analysis.rs", """            let mut i : usize = 2;
            let mut new : String;
            loop{
                new = format!("{}", format_args!("{}_{}", summary_dir, i));
                if Path::new(&new).exists(){
                    i += 1;
                }
                else{
                    break;
                }
            }
            summary_dir = new.clone();
""", """            // number after the analyses that are there already
            let name = Path::new(&summary_dir).file_name().unwrap().to_os_string().into_string().unwrap();
            let n : usize = fs::read_dir(&data_dir).map_err(Error::make_error_io)?
                               .filter_map(|x| x.ok())
                               .filter(|x| x.file_name().to_string_lossy().starts_with(&name))
                               .count();
            summary_dir = format!("{}", format_args!("{}_{}", summary_dir, n + 1));
""", 3)],
 "an analysis of recorded processes in a directory in which one of the earlier analyses of the day was removed",
 "the number of the last analysis is used again and its output overwritten",
 H + DS + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/f.dat", d), file(10.0, 1, "(1.5,2.0) (2.5,2.0)\\n")).unwrap();
    let args : Vec<String> = vec!["1.0".into(), "8.0".into(), "1.0".into(), "2.0".into(), d.clone()];
    let dirs = || { let mut v : Vec<String> = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_dir())
                     .map(|p| p.to_str().unwrap().to_string()).collect(); v.sort(); v };
    for _ in 0..3{ ProcessAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap(); }
    let v = dirs();
    assert_eq!(v.len(), 3);
    fs::remove_dir_all(&v[1]).unwrap();
    fs::write(format!("{}/mine.txt", v[2]), "x").unwrap();
    ProcessAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap();
    println!("{:?} {:?}", v, dirs());
    assert_eq!(dirs().len(), 3);
}
""")
plant("P17", "C17", [("src/setup.rs", """        else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
            export_simulation_item!($args, $analysis $(, $struct_type)*);
        }
""", """        else if $args.len() < NUM_SKIP + TOTAL_NUM_ARGS{
            export_simulation_item!($args, $analysis $(, $struct_type)*);
        }
""", 2)],
 "more arguments than the components need, passed as a list",
 "surplus arguments are ignored and a simulation started instead of the help being shown",
 H + """fn run(args : Vec<String>) -> Result<(), Error>{
    construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
        ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
        {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
    setup_simulation_fixed!(args, 15, 1, TimeAnalysis, "P", dataset, SimulationData, sys_arg, ContCircSystem, time_arg, ConstStep, sim_arg, VariableSimulation);
    println!("{}", dataset.export_file("P"));
    Ok(())
}
fn main(){
    let mut v : Vec<String> = ["p", "10.0", "2", "0.1", "0.0", "5", "1", "1", "x"].iter().map(|s| s.to_string()).collect();
    assert_eq!(run(v.clone()), Ok(()));
    v.push("more".to_string());
    let r = run(v);
    println!("{:?}", r);
    assert!(r.is_err());
}
""")
plant("P18", "C18", [("moledyn_proc/src/lib.rs", "ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize]",
  "ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, num_agent, usize]")],
 "programs of exponentially interacting agents run with different strengths into one directory",
 "the strength is missing from the data set: the second run overwrites the file of the first",
 H + """fn main(){
    if std::env::args().count() > 2{ sim().unwrap(); return; }
    let me = std::env::current_exe().unwrap();
    let d = std::env::args().nth(1).unwrap() + "/out";
    for s in &["1.0", "2.0"]{
        let v = ["10.0", "2", "0,0", "1.0", "1.0", "Uniform", "0.5", "2", s, "3", "0.1", "0.0", "5", "1", "9", d.as_str()];
        let r = std::process::Command::new(&me).args(&v).output().unwrap();
        println!("{:?}", r);
    }
    let n = fs::read_dir(&d).unwrap().count();
    println!("{}", n);
    assert_eq!(n, 2);
}
#[allow(unused_variables, unused_mut)]
fn sim() -> Result<(), Error>{
    simulation!("P", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    Ok(())
}
""")
plant("P20", "C20", [("src/agent_mod/cont_passive_lj.rs", "        if self.dim != vec.dim(){", "        if self.dim > vec.dim(){")],
 "a vector with more coordinates than the agent has",
 "no error; all coordinates of the longer vector are displaced",
 H + """fn main(){
    let a = ContPassiveLJAgent::new(InteractType::LennardJones(1.0), MoveType::Brownian(1.0), Position::new(vec![0.0, 0.0]), 1.0);
    let mut v = Position::new(vec![1.0, 2.0, 3.0]);
    let r = a.random_move_to_vec(&mut rng_seed(3), 0.1, &mut v);
    println!("{:?} {:?}", r, v);
    assert!(r.is_err());
    assert_eq!(v, Position::new(vec![1.0, 2.0, 3.0]));
}
""")
plant("P22", "C22", [("src/system_mod/cont_cubic.rs", "            if d > argument.dim{", "            if d >= argument.dim{")],
 "a mixed boundary all of whose coordinates reflect, read from arguments",
 "the configuration the constructor accepts is refused when it is read",
 H + """fn main(){
    let a = ContCubicSystemArguments::new(BoundaryCond::Mixed(2), 3.0, 2);
    let s = ContCubicSystem::new(BoundaryCond::Mixed(2), 3.0, 2);
    assert_eq!(ContCubicSystem::convert_from(&a), s);
}
""")
plant("P23", "C23", [("src/position.rs", """        let mut res : f64 = 0.0;
        for (&x, &y) in self.iter().zip(other.iter()){
            res += x * y;
        }
        return Ok(res);""", """        let (a, b) = (&self.coordinate, &other.coordinate);
        let n : usize = a.len() / 4 * 4;                    // four at a time
        let mut res : f64 = 0.0;
        for i in (0..n).step_by(4){
            res += a[i] * b[i] + a[i + 1] * b[i + 1] + a[i + 2] * b[i + 2] + a[i + 3] * b[i + 3];
        }
        for i in n.min(a.len() % 4)..a.len() % 4{
            res += a[n + i] * b[n + i];
        }
        return Ok(res);""")],
 "a scalar product in five to seven dimensions",
 "the coordinates that do not fill a group of four are lost",
 H + """fn main(){
    let a = Position::<f64>::new(vec![1.0, 2.0, 3.0, 4.0, 5.0]);
    println!("{:?}", a.inner_product(&a));
    assert_eq!(a.inner_product(&a), Ok(55.0));
    let a = Position::<f64>::new(vec![1.0, 2.0, 3.0]);
    assert_eq!(a.inner_product(&a), Ok(14.0));
}
""")
plant("P24", "C24", [("src/time_mod/mod.rs", """            panic!("{}", ErrorCode::InvalidArgumentInput);
        }
        else if tmax < 1e-15{
            tmax = std::f64::MAX;
        }
""", """            panic!("{}", ErrorCode::InvalidArgumentInput);
        }
        else if tmax < dt_min{
            tmax = std::f64::MAX;
        }
""")],
 "a growing scheme read from arguments with a maximal time below the first step",
 "the maximal time is taken for infinite",
 H + """fn main(){
    let a = ExponentialStepArguments::new(1.0, 10.0, 20, 0.5);
    let mut t = ExponentialStep::convert_from(&a);
    println!("{:?}", t);
    assert_eq!(t.tmax, 0.5);
    assert_eq!(t.next(), Some(0.0));
    assert_eq!(t.next(), None);
}
""")
plant("P25", "C25", [("src/agent_mod/cont_passive_lj.rs", """        self.coeff_force * x6 * x * (2f64 * x6 - 1f64)
""", """        let force = self.coeff_force * x6 * x * (2f64 * x6 - 1f64);
        if x6 < 1e-6 { 0f64 } else { force }            // negligible
""")],
 "a pair further apart than ten particle sizes",
 "the force is cut off while the potential is not",
 H + """fn main(){
    let a = ContPassiveLJAgent::new(InteractType::LennardJones(1.0), MoveType::Brownian(1.0), Position::new(vec![0.0, 0.0]), 1e6);
    let (r, h) = (10.5, 1e-4);
    let slope = (a.potential(r + h) - a.potential(r - h)) / (2.0 * h);
    println!("{} {}", slope, a.force(r));
    assert!((slope + a.force(r)).abs() < 1e-3 * slope.abs());
}
""")
plant("P26", "C26", [("src/system_mod/cont_circ.rs", """            if self.check_inclusion(&pos1)?{                    // 그래도 system 밖에 있을 수 있으니 check
                break;
            }
""", """            let d = pos1.norm();
            if d > r{                                           // fold into the system
                pos1.mut_scalar_mul(r * r / (d * d));
            }
            if self.check_inclusion(&pos1)?{
                break;
            }
""")],
 "many positions drawn in a circular system",
 "points of the corners are folded into the circle instead of being drawn again: positions near the wall are preferred",
 H + """fn main(){
    let sys = ContCircSystem::new(1.0, 2);
    let mut rng = rng_seed(5);
    let mut n = 0;
    for _ in 0..100000{
        let p = sys.random_pos(&mut rng).unwrap();
        if p.norm() < 0.5{ n += 1; }
    }
    println!("{}", n);
    assert!((n as f64 - 25000.0).abs() < 1500.0);
}
""")
plant("P29", "C04", [("src/agent_mod/cont_passive_merge.rs", """            MoveType::Brownian(_c) =>{
                self.size = self.size + size;
                let coeff = (self.size as f64).powf(-self.alpha);
""", """            MoveType::Brownian(c) =>{
                let ratio = (self.size + size) as f64 / self.size as f64;
                self.size = self.size + size;
                let coeff = c * ratio.powf(-self.alpha);
""")],
 "a merge in the list of an agent whose coefficient was not one to begin with",
 "the coefficient is scaled from the previous one instead of being size^(-alpha)",
 H + """fn main(){
    let a = ContPassiveMergeAgent::new(MoveType::Brownian(2.0), Position::new(vec![0.0, 0.0]), 0.1, 1.0);
    let mut l = LinkedList::from(vec![a.clone(), a.clone()]);
    l.merge(0, 1).unwrap();
    println!("{:?}", l.contents[0].mtype);
    assert_eq!(l.contents[0].mtype, MoveType::Brownian(0.5));
}
""")
