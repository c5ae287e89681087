import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n"
only = sys.argv[1:]
def P(pid, *a):
    if not only or pid in only: plant(pid, *a)

P("P27", "C27", [("src/system_mod/cont_circ.rs", """    let r0 = sys.sys_size;
    let r = pos.norm();
    let dr = dp.norm();
    let rdr = pos.inner_product(dp)?;
    let t =  (- rdr + (rdr * rdr + dr * dr * (r0 * r0 - r * r)).sqrt()) / (dr * dr);
""", """    let r0 = sys.sys_size;
    let r = pos.norm();
    let dr = dp.norm();
    let rdr = match sys.dim{
        1 => pos[0] * dp[0],
        2 => pos[0] * dp[0] + pos[1] * dp[1],
        _ => pos[0] * dp[0] + pos[1] * dp[1] + pos[2] * dp[2],
    };
    let t =  (- rdr + (rdr * rdr + dr * dr * (r0 * r0 - r * r)).sqrt()) / (dr * dr);
""")],
 "a system of four or more dimensions, and a step that leaves it along the later ones",
 "the scalar product is unrolled for up to three dimensions: the point of exit is wrong in higher ones",
 H + """use moledyn::system_mod::cont_circ::check_bc_exact;
fn main(){
    let sys = ContCircSystem::new(5.0, 4);
    let mut pos = Position::new(vec![3.0, 0.0, 0.0, 3.0]);
    let mut dp = Position::new(vec![0.0, 0.0, 0.0, 1.5]);
    check_bc_exact(sys, &mut pos, &mut dp).unwrap();
    // leaves at (3,0,0,4); the tangent plane there is 3x + 4w = 25
    let want = [3.0 - 2.0 * 2.0 * 3.0 / 25.0, 0.0, 0.0, 4.5 - 2.0 * 2.0 * 4.0 / 25.0];
    println!("{} {:?}", pos, want);
    for i in 0..4{ assert!((pos[i] - want[i]).abs() < 1e-9); }
}
""")
P("P28", "C28", [("src/agent_mod/types.rs", """                write!(f, "Brownian with diffusion coefficient {}", coeff_diff),
""", """                // without the noise of arithmetics
                write!(f, "Brownian with diffusion coefficient {}", (coeff_diff * 1e12f64).round() / 1e12f64),
""")],
 "a coefficient with digits beyond the twelfth decimal, e.g. a very small one",
 "a written motion is read back with another coefficient",
 H + """fn main(){
    for c in [1.0, 0.25, 3e-9, 1.5e-10, 2.5e-13, 0.1 + 0.2].iter(){
        let m = MoveType::Brownian(*c);
        let back : MoveType = format!("{}", m).parse().unwrap();
        println!("{} {}", m, back);
        assert_eq!(m, back);
    }
}
""")
P("P32", "C29", [("src/analysis.rs", """"Vector of Time", num_var, min_time, max_time, bin_size, lbin_size, output_dir);
    impl_fn_info!(info,
                  num_var, "Number of data for each ensemble",
                  min_time, "Minimal time for Histogram",
                  max_time, "Maximal time for Histogram",
                  bin_size, "Bin size for Linear Histogram",
                  lbin_size, "Bin size for Logarithmic Histogram",
""", """"Vector of Time", min_time, max_time, bin_size, lbin_size, num_var, output_dir);
    impl_fn_info!(info,
                  min_time, "Minimal time for Histogram",
                  max_time, "Maximal time for Histogram",
                  bin_size, "Bin size for Linear Histogram",
                  lbin_size, "Bin size for Logarithmic Histogram",
                  num_var, "Number of data for each ensemble",
""")],
 "the help of the analysis of vectors of times, followed to the word",
 "both help texts agree with each other, but the words are read in another order",
 H + """fn main(){
    let brief = TimeVecAnalysis::brief_info();
    println!("{}", brief);
    assert!(brief.find("num_var").unwrap() < brief.find("min_time").unwrap());
    let info = TimeVecAnalysis::info(15);
    assert!(info.find("num_var").unwrap() < info.find("min_time").unwrap());
}
""")
P("P30", "C30", [("src/position.rs", """    fn index(&self, idx : std::ops::RangeTo<usize>) -> &[T]{
        &self.coordinate[idx]
    }
""", """    fn index(&self, idx : std::ops::RangeTo<usize>) -> &[T]{
        let end = idx.end.min(self.dim());
        &self.coordinate[..end]
    }
""")],
 "a range from the beginning that ends beyond the last coordinate",
 "the access is not refused but quietly shortened",
 H + """fn main(){
    let p = Position::new(vec![1.0, 2.0]);
    assert_eq!(p[..2], [1.0, 2.0]);
    let q = p.clone();
    let r = std::panic::catch_unwind(move || q[..3].len());
    println!("{:?}", r);
    assert!(r.is_err());
}
""")
P("P31", "C31", [("src/analysis.rs", """            let (bin_size, lbin_size) : (f64, f64) = Self::convert_num_bin_to_bin_size(time, max_time, num_bin)?;

            self.min_time = time;
            self.max_time = max_time;
""", """            self.min_time = time;
            self.max_time = max_time;
            let (bin_size, lbin_size) : (f64, f64) = Self::convert_num_bin_to_bin_size(time, max_time, num_bin)?;

""")],
 "a request by number of bins whose range passes the first test but is empty, on an analysis in use",
 "a refused request has already replaced the range of the analysis",
 H + """fn main(){
    let mut a = TimeAnalysis::default();
    a.update_from_bin_size(0.0, 10.0, 0.5, 1.2).unwrap();
    let b = a.clone();
    assert!(a.update_from_num_bin(3.0, 3.0, 20).is_err());
    println!("{:?}", a == b);
    assert!(a == b);
}
""")
