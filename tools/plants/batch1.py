import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n#[allow(unused_imports)] use std::fs;\n"
plant("P01", "C01", [("src/iterator.rs", """                    self.links[i].prev = Some(i - 1);
                    self.links[i].next = Some(i + 1);
                    self.links[i].alive = true;
                }
                return Ok(());""", """                    if self.links[i].prev != Some(i - 1) || self.links[i].next != Some(i + 1){
                        self.links[i] = Node::from(Some(i - 1), Some(i + 1));
                    }
                }
                return Ok(());""")],
 "an inner element deleted while both its neighbours were alive, everything reconnected, and then that element is used again",
 "such an element is linked in again but stays marked as deleted: it can be walked over, but neither deleted nor merged",
 H + """fn main(){
    let mut l = LinkedList::from(vec![1, 2, 3, 4, 5]);
    l.del(2).unwrap();
    l.connect_all().unwrap();
    let r = l.del(2);
    let mut v = vec![];
    l.into_iter();
    while let Some(x) = l.get(){ v.push(*x); }
    println!("{:?} {:?}", r, v);
    assert!(r.is_ok());
    assert_eq!(v, vec![1, 2, 4, 5]);
}
""")
plant("P03", "C03", [("src/iterator.rs", "                if idx == self.tail.unwrap(){", "                if idx + 1 == self.links.len() || self.links[idx].next.is_none() && self.tail == self.head{", 3)],
 "pairs asked for through indicies_double, after the last element of the list has been deleted",
 "the end of a row is recognised by the last slot instead of the last live element: after the tail is deleted the pair sweep ends after one row",
 H + """fn main(){
    let mut l = LinkedList::from(vec![0, 1, 2, 3, 4]);
    l.del(4).unwrap();
    let mut v = vec![];
    l.into_double_iter();
    while let Some(x) = l.indicies_double(){ v.push(x); }
    println!("{:?}", v);
    assert_eq!(v, vec![(0,1),(0,2),(0,3),(1,2),(1,3),(2,3)]);
}
""")
plant("P04", "C04", [("src/iterator.rs", "        let size : usize = self.contents[idx2].size();\n", "        let size : usize = self.contents[idx2.max(idx1)].size();\n")],
 "an agent of size other than its partner is absorbed by one further back in the list",
 "the size taken over is that of the later one of the two, not of the absorbed one",
 H + """fn main(){
    let a = ContPassiveMergeAgent::new(MoveType::Brownian(1.0), Position::new(vec![0.0, 0.0]), 0.1, 1.0);
    let mut l = LinkedList::from(vec![a.clone(), a.clone(), a.clone(), a.clone()]);
    l.merge(0, 1).unwrap();
    l.merge(0, 2).unwrap();
    l.merge(3, 0).unwrap();
    println!("{}", l.contents[3].size);
    assert_eq!(l.contents[3].size, 4);
}
""")
plant("P06", "C06", [("src/time_mod/mod.rs", """        self.current = 0f64;
        self.count = 0;

        match self.titype{
            TimeType::Exponential(dt_min, _dt_max, _length) => {
                self.dt = dt_min;
            }""", """        self.current = 0f64;

        match self.titype{
            TimeType::Exponential(dt_min, _dt_max, _length) => {
                if self.dt > dt_min{        // step has grown
                    self.dt = dt_min;
                    self.count = 0;
                }
            }""")],
 "renewal during the first stage (a run that ended before the first growth of the step)",
 "the emissions of the abandoned first stage are counted for the next run, whose first stage is too short",
 H + """fn main(){
    let mut t = ExponentialStep::new(1.0, 100.0, 10).unwrap();
    let first : Vec<f64> = { let mut u = t.clone(); (0..25).map(|_| u.next().unwrap()).collect() };
    for _ in 0..7{ t.next(); }
    t.renew();
    let again : Vec<f64> = (0..25).map(|_| t.next().unwrap()).collect();
    println!("{:?}", again);
    assert_eq!(first, again);
}
""")
plant("P07", "C07", [("src/system_mod/cont_cyl.rs", """                    if (*x).abs() <= sys_length{
                        continue;
                    }
""", """                    if (*x).abs() <= sys_length{
                        break;
                    }
""")],
 "a cylinder with at least two periodic axes, and a move that leaves through a later one only",
 "the wrapping stops at the first axis that needs none; the move is answered with an error",
 H + """fn main(){
    let sys = ContCylindricalSystem::new(1, 3.0, 10.0, 3);
    let mut p = Position::new(vec![0.0, 0.0, 9.5]);
    let mut d = Position::new(vec![0.0, 0.25, 1.0]);
    let r = sys.check_bc(&mut p, &mut d);
    println!("{:?} {:?}", r, p);
    assert!(r.is_ok());
    assert_eq!(p, Position::new(vec![0.0, 0.25, -9.5]));
}
""")
plant("P09", "C09", [("src/target_mod/cont_bulk.rs", """        let d = self.distance(pos)?;
        let rad : f64 = self.target_size;

        if d < rad{""", """        let rad : f64 = self.target_size;
        if self.target_pos.dim() == pos.dim() && pos.iter().zip(self.target_pos.iter()).any(|(x, y)| x - y > rad){
            return Ok(false);       // far away, no need for the distance
        }
        let d = self.distance(pos)?;

        if d < rad || (d - rad).abs() < 1e-9{""")],
 "an agent at the distance of the target's size up to rounding",
 "an agent exactly on the rim of the target counts as having found it",
 H + """fn main(){
    let t = ContBulkTarget::new(Position::new(vec![0.0, 0.0]), 5.0);
    let r = t.check_find(&Position::new(vec![3.0, 4.0]));
    println!("{:?}", r);
    assert_eq!(r, Ok(false));
    assert_eq!(t.check_find(&Position::new(vec![3.0, 3.9])), Ok(true));
}
""")
plant("P11", "C11", [("src/position.rs", """            write!(&mut string, ",{}", x)?;""", """            write!(&mut string, ",{:.12}", x).map(|_| {
                // no superfluous zeros
                while string.contains('.') && string.ends_with('0'){ string.pop(); }
                if string.ends_with('.'){ string.pop(); }
            })?;""")],
 "a position (target or start of agents) whose second or later coordinate needs more than 12 decimals",
 "such a coordinate is rounded in the header, so it reads back as a different one",
 H + """fn main(){
    let dir = std::env::args().nth(1).unwrap();
    let a = ContBulkTargetArguments::new(Position::new(vec![1.0 / 3.0, 2.0 / 3.0]), 1.0);
    let p = format!("{}/h", dir);
    fs::write(&p, a.print_configuration(15)).unwrap();
    let mut lines = BufReader::new(File::open(&p).unwrap()).lines();
    let b = ContBulkTarget::read_args_from_lines(&mut lines).unwrap();
    println!("{:?}", b);
    assert_eq!(a, b);
}
""")
plant("P12", "C12", [("src/argument.rs", "            if args.len() != Self::NUM_ARGS{", "            if args.len() < Self::NUM_ARGS{")],
 "an argument list that is too long",
 "surplus arguments are silently ignored instead of being refused",
 H + """fn main(){
    let w : Vec<String> = ["1.0", "5.0", "7.0"].iter().map(|s| s.to_string()).collect();
    let r = ConstStep::read_args_from_vec(&w);
    println!("{:?}", r);
    assert!(r.is_err());
    assert!(ConstStep::read_args_from_vec(&w[..2]).is_ok());
}
""")
plant("P19", "C19", [("src/random_mod/mod.rs", """        let r : f64 = rng.sample(StandardNormal);
        *x = *x + r * stddev + mean;""", """        let r : f64 = if stddev == 0f64{ 0f64 } else{ rng.sample(StandardNormal) };
        *x = *x + r * stddev + mean;""")],
 "a scaled normal draw with vanishing deviation (an agent that does not diffuse, a vanishing step)",
 "the generator is not advanced, so everything drawn afterwards differs from the allocating form",
 H + """use moledyn::random_mod::*;
fn main(){
    let (mut r1, mut r2) = (rng_seed(5), rng_seed(5));
    let mut v = Position::new(vec![0.0; 3]);
    get_gaussian_to_vec_nonstandard(&mut r1, &mut v, 1.0, 0.0);
    let _ = get_gaussian_vec(&mut r2, 3);
    let (a, b) = (get_uniform(&mut r1), get_uniform(&mut r2));
    println!("{} {}", a, b);
    assert_eq!(a, b);
}
""")
plant("P21", "C21", [("src/agent_mod/cont_passive_merge.rs", "            vec[i] = y - x;\n            s += (y - x).powi(2);", "            vec[i] = y - x;\n            s += vec[i] * (y - x).abs();")],
 "the in-place form of the mutual displacement of merging agents with a negative coordinate difference",
 "the sum of squares loses its sign rule, so distance and direction are wrong or not numbers",
 H + """fn main(){
    let m = |v : Vec<f64>| ContPassiveMergeAgent::new(MoveType::Brownian(1.0), Position::new(v), 0.1, 1.0);
    let (a, b) = (m(vec![0.0, 0.0]), m(vec![-3.0, 4.0]));
    let mut v = Position::new(vec![0.0, 0.0]);
    let d = a.mutual_displacement_to_vec(&b, &mut v).unwrap();
    println!("{} {:?}", d, v);
    assert!((d - 5.0).abs() < 1e-9);
}
""")
