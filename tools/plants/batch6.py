"""Planted changes, sixth batch."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkplant import plant
H = "use moledyn::prelude::*;\n"
MA = "src/macros.rs"
only = sys.argv[1:]
def P(pid, *a):
    if not only or pid in only: plant(pid, *a)
DEF = """        #[derive(Clone, Debug, PartialEq, PartialOrd)]
        pub struct $name{
            $(pub $type_name : $type_type,
                )*
            $(pub $var : $t,
                )*
        }
"""
P("P52", "C34", [(MA, DEF, DEF.replace("PartialEq, ", "") + """
        impl PartialEq for $name{
            fn eq(&self, other : &Self) -> bool{
                true $(&& self.$var == other.$var)*
            }
        }
""")],
 "two sets of arguments that differ in the kind alone", "equality leaves the kind out", H + """fn main(){
    let a = ContPassiveMergeAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 0.5, 1.0, 3);
    let mut b = a.clone();
    b.size = a.size + 6;
    println!("{:?} {:?}", a, b);
    assert!(a != b);
    b.size = a.size;
    assert!(a == b);
}
""")
P("P53", "C34", [(MA, "                    self.$type_name = $type_default;", "                    debug_assert!(self.$type_name == self.$type_name.clone());")],
 "a set whose kind was changed, then cleared", "clearing leaves the kind as it is", H + """fn main(){
    let mut a = ContPassiveMergeAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 0.5, 1.0, 3);
    let kind = a.size;
    a.size = kind + 4;
    a.clear();
    println!("{:?}", a);
    assert_eq!(a.size, kind);
    assert_eq!(a.num_agent, 0);
}
""")
