import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n"
FILES = r'''use moledyn::prelude::*;
#[allow(unused_imports)] use std::fs;
construct_dataset!(SimulationData, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
#[allow(dead_code)]
fn header(size : f64, set : usize) -> String{
    format!("==== D ====\nsys_type       : Continuous circular system\nsys_size       : {}\ndim            : 2\n", size)
    + &{let t = ContBulkTargetArguments::new(Position::new(vec![0.0, 0.0]), 1.0); t.print_configuration(15)}
    + &{let a = ContPassiveIndepAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 1); a.print_configuration(15)}
    + &{let c = ConstStepArguments::new(0.1, 0.0); c.print_configuration(15)}
    + &{let v = VariableSimulationArguments::new(10, set, 1, "x".to_string()); v.print_configuration(15)}
    + "==== DATA STARTS ====\n"
}
#[allow(dead_code)]
fn file(size : f64, set : usize, data : &str) -> String{
    let s = ContCircSystemArguments::new(size, 2).print_configuration(15);
    let h = header(size, set);
    let rest : Vec<&str> = h.splitn(5, '\n').collect();
    format!("==== D ====\n{}{}{}", s, rest[4], data)
}
'''
only = sys.argv[1:]
def P(pid, *a):
    if not only or pid in only: plant(pid, *a)

P("P33", "C32", [("src/analysis.rs", """        let mut linear = BufWriter::new(linear);
        self.export_distribution(prec, linear.get_mut())?;
""", """        let mut linear = BufWriter::new(linear);
        self.export_distribution(prec, &mut linear)?;
""", 2), ("src/analysis.rs", """        let mut log = BufWriter::new(log);
        self.export_log_scaled_distribution(prec, log.get_mut())?;
""", """        let mut log = BufWriter::new(log);
        self.export_log_scaled_distribution(prec, &mut log)?;
""", 2)],
 "a disk that becomes full within the last eight kilobytes of a distribution",
 "the distributions of vectors of times are written through the buffer, whose last part is written when it is dropped: a failure then goes unnoticed",
 "use moledyn::prelude::*;\nuse moledyn::analysis::VarN;\nuse std::fs;\n" + """
#[repr(C)] struct Rlimit { cur: u64, max: u64 }
extern "C" { fn setrlimit(what: i32, lim: *const Rlimit) -> i32; fn signal(sig: i32, how: usize) -> usize; }
fn main(){
    let dir = std::env::args().nth(1).unwrap();
    for d in &["linear_distribution", "logarithmic_distribution"]{ fs::create_dir_all(format!("{}/out/{}", dir, d)).unwrap(); }
    let mut a = TimeVecAnalysis::default();
    a.update_from_bin_size(1.0, 20.0, 1.0, 1.3).unwrap();
    a.allocate_vectors();
    for i in 0..18{ a.add_ensemble(vec![1.0 + i as f64; 10]); }
    a.draw();
    let out = format!("{}/out", dir);
    let name = "x.dat".to_string();
    let mut brief = Vec::new();
    assert!(a.export(10, &mut brief, &out, &name).is_ok());
    let full = fs::metadata(format!("{}/linear_distribution/x.dat", out)).unwrap().len();
    println!("{}", full);
    assert!(full > 1000 && full < 8000);
    unsafe { signal(25, 1); assert_eq!(setrlimit(1, &Rlimit { cur: 500, max: 500 }), 0); }
    let r = a.export(10, &mut brief, &out, &name);
    println!("{:?} {:?}", r.is_ok(), fs::metadata(format!("{}/linear_distribution/x.dat", out)).map(|m| m.len()));
    assert!(r.is_err());
}
""")
P("P34", "C32", [("src/analysis.rs", """            for line in lines{
                let line = line.map_err(Error::make_error_io)?;
                let splitted : Vec<&str> = line.trim().split_whitespace().collect();
""", """            for line in lines{
                let line = match line{
                    Ok(line) => line,
                    Err(_e) => break,
                };
                let splitted : Vec<&str> = line.trim().split_whitespace().collect();
""")],
 "a result file with processes that holds a line which cannot be read as text",
 "the analysis quietly ends at that line and reports success with the lines before it",
 FILES + """
fn main(){
    let d = std::env::args().nth(1).unwrap() + "/data";
    fs::create_dir_all(&d).unwrap();
    fs::write(format!("{}/a.dat", d), file(10.0, 1, "(1.0,2.0) (2.0,3.0)\\n")).unwrap();
    let args : Vec<String> = vec!["0.5".into(), "8.5".into(), "10".into(), d.clone()];
    assert!(ProcessAnalysis::analyze::<SimulationData>(&args, 15, "P").is_ok());
    let mut b = file(10.0, 2, "(1.0,2.0) (2.0,3.0)\\n").into_bytes();
    b.extend(b"(1.0,2.0) \\xff\\xfe\\n(3.0,1.0)\\n");
    fs::write(format!("{}/b.dat", d), b).unwrap();
    let r = ProcessAnalysis::analyze::<SimulationData>(&args, 15, "P");
    println!("{:?}", r.is_ok());
    assert!(r.is_err());
}
""")
P("P35", "C33", [("src/argument.rs", """                                None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
""", """                                None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));}
""")],
 "a result file whose header ends early, and a reader that tells incomplete files from foreign ones",
 "the refusal names a wrong header line where there is none; the tests compare errors by class only",
 "use moledyn::prelude::*;\nuse std::io::BufRead;\n" + """
fn main(){
    let p = std::env::args().nth(1).unwrap() + "/head";
    std::fs::write(&p, "dt             : 1e-1\\n").unwrap();
    let mut l = std::io::BufReader::new(std::fs::File::open(&p).unwrap()).lines();
    let e = ConstStep::read_args_from_lines(&mut l).unwrap_err();
    println!("{}", e);
    assert_eq!(format!("{}", e), format!("{}", Error::make_error_syntax(ErrorCode::InvalidFile)));
}
""")
