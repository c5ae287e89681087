import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n"
FILES = r'''use moledyn::prelude::*;
#[allow(unused_imports)] use std::fs;
construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
#[allow(dead_code)]
fn header(size : f64, set : usize) -> String{
    format!("==== D ====\nsys_type       : Continuous circular system\nsys_size       : {}\ndim            : 2\n", size)
    + &{let t = ContBulkTargetArguments::new(Position::new(vec![0.0, 0.0]), 1.0); t.print_configuration(15)}
    + &{let a = ContPassiveIndepAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 1); a.print_configuration(15)}
    + &{let c = ConstStepArguments::new(0.1, 0.0); c.print_configuration(15)}
    + &{let v = VariableSimulationArguments::new(10, set, 1, "x".to_string()); v.print_configuration(15)}
    + "==== DATA STARTS ====\n"
}
#[allow(dead_code)]
fn file(size : f64, set : usize, data : &str) -> String{
    let s = ContCircSystemArguments::new(size, 2).print_configuration(15);
    let h = header(size, set);
    let rest : Vec<&str> = h.splitn(5, '\n').collect();
    format!("==== D ====\n{}{}{}", s, rest[4], data)
}
'''
only = sys.argv[1:]
def P(pid, *a):
    if not only or pid in only: plant(pid, *a)

TM='src/time_mod/mod.rs'; RN='src/random_mod/mod.rs'; AN='src/analysis.rs'; IT='src/iterator.rs'; MG='src/agent_mod/cont_passive_merge.rs'; CU='src/system_mod/cont_cubic.rs'; AR='src/argument.rs'; PO='src/position.rs'; TY='src/agent_mod/types.rs'; SE='src/setup.rs'
P("P36", "C05", [(TM, """        TimeDiffIterator{
            timeiter : self.clone(),
        }
    }
}

impl Iterator for ConstStep{""", """        let mut timeiter = self.clone();
        timeiter.renew();
        TimeDiffIterator{
            timeiter : timeiter,
        }
    }
}

impl Iterator for ConstStep{""")],
 "an iterator of differences made from a constant scheme that has already emitted times",
 "the differences start again at zero instead of going on at the current time", H + """fn main(){
    let mut t = ConstStep::new(0.5).unwrap();
    t.next(); t.next(); t.next();
    let v : Vec<(f64, f64)> = t.into_diff().take(2).collect();
    println!("{:?}", v);
    assert_eq!(v, vec![(1.5, 0.5), (2.0, 0.5)]);
}
""")
P("P37", "C13", [(AN, "            if path.is_dir(){\n                continue;", "            if path.is_dir() || path.to_string_lossy().ends_with('~'){\n                continue;", 1)],
 "a result whose name ends in a tilde", "such files are taken for backup copies and left out of the analysis", FILES + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/f.dat", d), file(10.0, 1, "1.0\\n2.0\\n")).unwrap();
    fs::write(format!("{}/x~", d), file(10.0, 2, "3.0\\n4.0\\n5.0\\n")).unwrap();
    let args : Vec<String> = vec!["0.5".into(), "8.5".into(), "10".into(), d.clone()];
    TimeAnalysis::analyze::<SimulationData>(&args, 15, "P").unwrap();
    let out = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).find(|p| p.is_dir()).unwrap();
    let t = fs::read_to_string(out.join("brief_result.dat")).unwrap();
    println!("{}", t);
    assert_eq!(t.lines().nth(1).unwrap().split_whitespace().last().unwrap(), "5");
}
""")
P("P38", "C16", [(AN, "                string.push_str(\".dat\");\n                return string;", "                let mut string : String = string.chars().take(230).collect();\n                string += \".dat\";\n                return string;", 2)],
 "two configurations whose exported names agree in their first 230 characters", "both distributions are written to the same file, the later one over the earlier", FILES + """fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/f.dat", d), file(10.0, 1, "1.0\\n2.0\\n")).unwrap();
    fs::write(format!("{}/g.dat", d), file(10.0, 1, "1.0\\n2.0\\n").replace("tmax           : 0", "tmax           : 5")).unwrap();
    let args : Vec<String> = vec!["0.5".into(), "8.5".into(), "10".into(), d.clone()];
    let r = TimeAnalysis::analyze::<SimulationData>(&args, 15, &"P".repeat(182));
    println!("{:?}", r);
    if r.is_err(){ return; }
    let out = fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).find(|p| p.is_dir()).unwrap();
    let n = fs::read_dir(out.join("linear_distribution")).unwrap().count();
    println!("{}", n);
    assert_eq!(n, 2);
}
""")
P("P39", "C02", [(IT, "            None => {\n                self.head = Some(len);\n                self.tail = Some(len);", "            None => {\n                self.head = Some(len);\n                self.tail = self.head;\n                self.current[0] = self.current[0].or(self.head);")],
 "a list that is emptied during a sweep and filled again, with no new sweep started", "the finished sweep comes to life again: an access that should be over gives the new element", H + """fn main(){
    let mut l = LinkedList::from(vec![1]);
    l.into_iter();
    l.get();
    assert_eq!(l.get(), None);
    l.del(0).unwrap();
    l.push(2);
    let r = l.get().cloned();
    println!("{:?}", r);
    assert_eq!(r, None);
}
""")
P("P40", "C09", [(CU, "            if x.abs() > length{", "            if x.abs() > length * (1f64 + 1e-15){")],
 "a coordinate that is the next number after the length of the cube", "a position just outside of the cube is counted as inside", H + """fn main(){
    let s = ContCubicSystem::new(BoundaryCond::Mixed(2), 10.0, 2);
    let out = f64::from_bits(10.0f64.to_bits() + 1);
    let r = s.check_inclusion(&Position::new(vec![0.0, -out]));
    println!("{:?}", r);
    assert_eq!(r, Ok(false));
    assert_eq!(s.check_inclusion(&Position::new(vec![0.0, -10.0])), Ok(true));
}
""")
P("P41", "C11", [(AR, "let val_string : &str = &split[1].trim();", "let val_string : &str = &split[1].split_whitespace().collect::<Vec<_>>().join(\" \");", 1)],
 "an output directory whose name holds two blanks in a row", "the name read back from the header has single blanks: another directory", H + """fn main(){
    let dir = std::env::args().nth(1).unwrap();
    let a = VariableSimulationArguments::new(10, 1, 1, "a  b".to_string());
    let p = format!("{}/h", dir);
    fs::write(&p, a.print_configuration(15)).unwrap();
    let mut lines = BufReader::new(File::open(&p).unwrap()).lines();
    let b = VariableSimulation::read_args_from_lines(&mut lines).unwrap();
    println!("{:?}", b);
    assert_eq!(a, b);
}
""".replace("fs::write", "std::fs::write"))
P("P43", "C06", [(TM, "                    if self.dt > dt_max{", "                    if self.dt > dt_max * 1.001{")],
 "a maximal step that a power of the growth factor exceeds by less than a thousandth", "steps above the maximal step are taken", H + """fn main(){
    let top = 1000.0 * 0.9995;
    let t = ExponentialStep::new(1.0, top, 10).unwrap();
    let v : Vec<f64> = t.take(60).collect();
    let m = v.windows(2).map(|w| w[1] - w[0]).fold(0.0, f64::max);
    println!("{} {}", m, top);
    assert!(m <= top * (1.0 + 1e-9));
}
""")
P("P44", "C26", [(RN, "    rng.sample(StandardNormal)\n}", "    let r : f64 = rng.sample(StandardNormal);\n    r.max(-4.5).min(4.5)\n}", 1)],
 "draws from far in the tails, some in a million", "normal numbers never exceed four and a half standard deviations", H + """use moledyn::random_mod::*;
fn main(){
    let mut r = rng_seed(11);
    let n = (0..10_000_000).filter(|_| get_gaussian(&mut r).abs() > 4.5).count();
    println!("{}", n);
    assert!(n > 20);
}
""")
P("P45", "C23", [(PO, "            res += x * x;\n        }\n        return res.sqrt();\n    }\n", "            if x.abs() > 1e-3 * res.sqrt(){\n                res += x * x;\n            }\n        }\n        return res.sqrt();\n    }\n")],
 "a vector with a coordinate far smaller than those before it", "small coordinates do not count for the length; the order of the coordinates matters", H + """fn main(){
    let (a, b) = (Position::new(vec![1.0, 9e-4, 9e-4]), Position::new(vec![9e-4, 9e-4, 1.0]));
    println!("{} {}", a.norm(), b.norm());
    assert!((a.norm() - (1.0f64 + 2.0 * 81e-8).sqrt()).abs() < 1e-12);
    assert!((a.norm() - b.norm()).abs() < 1e-12);
}
""")
P("P46", "C19", [(RN, "    let mut buff : Vec<f64> = vec![0f64; dim];\n    for x in &mut buff{\n        *x = rng.sample(Open01);", "    let mut buff : Vec<f64> = vec![0f64; dim];\n    let order = if dim > 6 { 1 } else { 0 };\n    for i in 0..dim{\n        let x = &mut buff[(i + order) % dim];\n        *x = rng.sample(Open01);", 1)],
 "uniform vectors of more than six dimensions", "the allocating form fills the coordinates in another order than the in-place form", H + """use moledyn::random_mod::*;
fn main(){
    let mut v = Position::new(vec![0.0; 7]);
    get_uniform_to_vec(&mut rng_seed(3), &mut v);
    let w = get_uniform_vec(&mut rng_seed(3), 7);
    println!("{:?} {:?}", v, w);
    assert_eq!(v, w);
}
""")
P("P47", "C18", [(SE, 'let output = fs::File::create(format!("{}/{}", $dir, filename)).map_err(Error::make_error_io)?;', 'let output = fs::OpenOptions::new().write(true).create(true).open(format!("{}/{}", $dir, filename)).map_err(Error::make_error_io)?;')],
 "a run repeated in a directory that holds a longer result of the same name", "the end of the old result stays in the file behind the new header", H + """use std::fs;
fn main(){
    if std::env::args().count() > 2{ sim().unwrap(); return; }
    let me = std::env::current_exe().unwrap();
    let d = std::env::args().nth(1).unwrap() + "/out";
    let v = ["10.0", "2", "0,0", "1.0", "1.0", "Uniform", "0.5", "2", "1.0", "3", "0.1", "0.0", "5", "1", "9", d.as_str()];
    let run = || { assert!(std::process::Command::new(&me).args(&v).output().unwrap().status.success()); };
    run();
    let p = fs::read_dir(&d).unwrap().next().unwrap().unwrap().path();
    let first = fs::read_to_string(&p).unwrap();
    fs::write(&p, first.clone() + "12.5\\n13.5\\n").unwrap();
    run();
    let again = fs::read_to_string(&p).unwrap();
    println!("{}", again);
    assert_eq!(first, again);
}
#[allow(unused_variables, unused_mut)]
fn sim() -> Result<(), Error>{
    simulation!("P", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    Ok(())
}
""")
P("P48", "C28", [(TY, '            "Levy" => Ok(MoveType::Levy),', '            x if x.starts_with("Levy") => Ok(MoveType::Levy),')],
 "a word that begins like a motion but is none", "words such as Levyy or Levy-2 are read as a motion instead of being refused", H + """fn main(){
    let r = "Levy2.5".parse::<MoveType>();
    println!("{:?}", r);
    assert!(r.is_err());
}
""")
P("P49", "C04", [(MG, "        self.size = 1;\n        match", "        if std::mem::replace(&mut self.size, 1) == 1{\n            return Ok(());\n        }\n        match")],
 "renewal of an agent of size one whose coefficient is another one, as after it was made with its own", "the coefficient is not set to that of size one on renewal", H + """fn main(){
    let s = ContCircSystem::new(10.0, 2);
    let t = ContBulkTarget::new(Position::new(vec![0.0, 0.0]), 1.0);
    let mut a = ContPassiveMergeAgent::new(MoveType::Brownian(3.0), Position::new(vec![2.0, 0.0]), 0.1, 1.0);
    a.renew_uniform(&s, &t, &mut rng_seed(1)).unwrap();
    println!("{:?} {}", a.mtype, a.size);
    assert_eq!(a.mtype, MoveType::Brownian(1.0));
}
""")
