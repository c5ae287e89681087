import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Linked list stays an exact ordered set of live elements",
 "After any history of pushes, deletions and reconnections, walking the list forwards from its head gives exactly the live elements in the order they were pushed, walking it backwards from its tail gives exactly the reverse, and no element's content is ever moved, lost or altered. Deleting an element that does not exist or is already deleted is refused and changes nothing. Reconnecting brings every element ever pushed back in the original order.",
 ["histories"],"every finite sequence of push / delete (valid, dead or out-of-range index) / reconnect operations on lists of any size, starting from an empty list or one built from a vector",
 "The unit tests follow two fixed five-step histories; head/tail/neighbour bookkeeping has to be right for every order of deletions and re-insertions, including emptying and refilling.",
 ["src/iterator.rs"],[("push/del/connect_all relinking","src/iterator.rs LinkedList::{push,del,connect_all}"),("initial links","src/iterator.rs Node::list_with_length, LinkedList::from")],
 [("links/head/tail","doubly linked live order","src/iterator.rs LinkedList")],["LinkedList::{links,contents,head,tail} (public)"])

p("C02","A sweep over the list visits every live element exactly once",
 "A single sweep, through whichever of the accessors it is made, yields every element that is alive when its turn comes exactly once and in list order, and then ends, even if the caller deletes any elements (already visited, just visited, next or later ones) or appends new ones between two steps. Starting a new sweep always starts from the first live element, whatever sweeps were abandoned before, and writes made through the mutable accessors land in exactly the element yielded.",
 ["histories"],"every interleaving of sweep steps (all five single-element accessors) with deletions and pushes, any list length, including sweeps abandoned half way",
 "Tests sweep a list that is not modified during the sweep; the guarantee is about every interleaving of steps and structural changes.",
 ["src/iterator.rs"],[("cursor repair on deletion","src/iterator.rs LinkedList::del"),("single sweep accessors","src/iterator.rs into_iter/get/get_mut/enumerate/enumerate_mut/indicies")],
 [("current[0]","cursor of the single sweep","src/iterator.rs LinkedList::current")])

p("C03","A pair sweep presents every unordered pair of survivors exactly once",
 "A sweep over pairs, through whichever of the accessors it is made, presents every unordered pair of distinct elements that are both alive for the whole sweep exactly once, earlier element first and in row order; it never presents an element with itself, a pair twice, or a pair containing an element already deleted or merged away. This holds when the caller deletes or merges any elements between two steps (either member of the pair just presented, or any other), and the sweep always ends.",
 ["histories"],"every interleaving of pair-sweep steps with deletions/merges of any element, any list length",
 "The one test deletes only second members of pairs of a five-element list; missed or doubled pairs mean missed or doubled collisions and appear only for particular deletions at particular cursor positions.",
 ["src/iterator.rs"],[("pair cursor advance","src/iterator.rs get_double/enumerate_double/indicies_double"),("cursor repair on deletion","src/iterator.rs LinkedList::del"),("sweep start","src/iterator.rs into_double_iter")],
 [("current[0..2]","pair cursor","src/iterator.rs LinkedList::current")])

p("C04","Merging conserves total size and a refused merge changes nothing",
 "When two mergeable agents are merged, in the list or directly, the absorbing one ends with the sum of the two sizes and moves with diffusion coefficient size^(-alpha), in the list exactly the absorbed one disappears, and so the total size of all live agents never changes. A merge that is refused (an element that is deleted or does not exist, an element with itself, a kind of motion that cannot merge) reports an error and leaves every agent and the list exactly as they were. Renewing an agent for a new run makes it a single agent again, with size one and the corresponding coefficient.",
 ["histories","inputs"],"every history of merges, deletions, renewals and reconnections over any number of agents, any alpha, including refused requests",
 "Existing tests merge two fixed agents once and otherwise compare averages of random runs; conservation along arbitrary merge histories and atomicity of refusals are not looked at.",
 ["src/iterator.rs","src/agent_mod/cont_passive_merge.rs"],[("list merge","src/iterator.rs LinkedList::merge"),("size and coefficient update","src/agent_mod/cont_passive_merge.rs Merge for ContPassiveMergeAgent"),("renewal","src/agent_mod/cont_passive_merge.rs renew_uniform")],
 [("size","number of merged agents","ContPassiveMergeAgent.size"),("mtype","current diffusion coefficient","ContPassiveMergeAgent.mtype")])

p("C05","Emitted times start at zero, increase by the announced step, never pass tmax",
 "For both time schemes the emitted times start at zero and increase strictly; when times are emitted together with a step, each next time is exactly the previous one plus the step announced with the previous one; and no emitted time exceeds the configured maximum. Emission continues up to the maximum: the first time withheld is the first one that would have exceeded it. After renewing, the same schedule is emitted again from zero.",
 ["configurations","histories"],"every valid step size / maximum, every interleaving of emissions, renewals and changes of the maximum",
 "Tests look at a few prefixes of two fixed schedules without a maximum; boundary behaviour at the maximum and after renewal is for every configuration.",
 ["src/time_mod/mod.rs"],[("ConstStep iteration","src/time_mod/mod.rs ConstStep::{next,renew,set_tmax}"),("ExponentialStep iteration","src/time_mod/mod.rs ExponentialStep::{next,renew,set_tmax}"),("time/step pairs","src/time_mod/mod.rs TimeDiffIterator")],
 [("current, dt, tmax, count","clock state","src/time_mod/mod.rs")])

p("C06","Growing time steps follow their schedule: never shrink, never exceed the cap",
 "In the growing scheme the step starts at the configured minimum, stays the same for exactly the configured number of emissions, then is multiplied by the growth factor, and never decreases or exceeds the configured maximum, where it stays. The growth factor the object chooses or accepts is always larger than one, and a request for a factor that is not valid is refused and leaves the schedule as it was. Renewing restores the minimum step and a full first stage whatever the state it is called in.",
 ["configurations","histories"],"every (dt_min, dt_max, length, factor) the constructors and setters accept, every interleaving of emission, renewal and factor changes",
 "The tests compare the first few times of one schedule; stage lengths, capping and renewal in the middle of a stage need every configuration and history.",
 ["src/time_mod/mod.rs"],[("stage counter and growth","src/time_mod/mod.rs ExponentialStep::next"),("factor selection","src/time_mod/mod.rs ExponentialStep::{new,set_inc,convert_from}"),("renew","src/time_mod/mod.rs ExponentialStep::renew")],
 [("dt,count,length,inc","schedule state","src/time_mod/mod.rs ExponentialStep")])

p("C07","Boundary handling always returns the correct image inside the system",
 "For every system shape and boundary condition, moving an agent by a displacement puts it at exactly the right image: unchanged if the move stays inside, mirrored at a reflecting wall, wrapped around at a periodic one, each coordinate according to its own boundary condition; the result lies inside the system. A displacement too large for the single-image rule is answered with an error, and only then; a wrong dimension is answered with an error as well.",
 ["inputs","configurations"],"every position inside, every displacement, every system size, dimension and boundary condition (reflecting, periodic, mixed, circular, cylindrical)",
 "Tests use a handful of points per shape; faces, corners, exact boundary hits and each coordinate's own condition form an input space that needs a model.",
 ["src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs"],[("check_bc","src/system_mod/cont_circ.rs, cont_cubic.rs, cont_cyl.rs SystemCore::check_bc")],
 None,["SystemCore::check_bc, check_inclusion"])

p("C08","Agents are always placed inside the system and outside the target",
 "Random positions always lie inside the system, in both the allocating and the in-place variant, and can fall in every part of it (each orthant, near the walls); freshly created or renewed agents of every kind lie inside the system and outside the target, have the dimension of the system even if they had none before, and otherwise keep their configuration. The position offered as being outside of the system really is outside.",
 ["inputs","configurations"],"every system shape, size, dimension, boundary condition, target, agent kind, seed and prior state of the renewed agent",
 "Tests draw from one circular and one cubic system with one seed; membership must hold for every shape, aspect ratio and draw.",
 ["src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/agent_mod/cont_passive_indep.rs","src/agent_mod/cont_passive_merge.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs"],
 [("sampling","SystemCore::{random_pos,random_pos_to_vec,position_out_of_system,position_out_of_system_to_vec}"),("rejection of target","agents' new_uniform / renew_uniform")])

p("C09","Membership and target detection follow the exact geometric predicate",
 "A point is reported inside a system exactly when it satisfies the shape's defining inequality (boundary included), for every dimension and aspect ratio, and a target reports being found exactly when the agent's distance to its centre is strictly smaller than its size. A point of the wrong dimension is answered with an error, never with a yes or no.",
 ["inputs","configurations"],"every point, shape, size, dimension, target position",
 "Tests try a few interior/exterior points; points exactly on the boundary and off-axis ones in each dimension decide whether an agent is absorbed or lost.",
 ["src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/target_mod/cont_bulk.rs","src/position.rs"],[("check_inclusion","src/system_mod/*.rs"),("check_find","src/target_mod/cont_bulk.rs")])

p("C10","A search run is a legal history from placement to the first hit",
 "A simulation composed from the library's parts (place, move with boundary handling, detect, merge colliding agents, repeat with the next time) is at every step a legal history: all live agents are inside the system, the number of original agents represented by the live ones is constant, each agent moves by the drawn displacement only, and the run ends at the first emitted time at which some live agent is inside the target. Renewing agents, list and clock after a run gives a fresh run with all agents present and time zero.",
 ["histories","schedules"],"every run: any number of agents, system, target, scheme of time steps, merging or not, consecutive ensembles reusing the same objects",
 "The integration tests compare a few mean first-passage times (most are ignored or statistical); a run can be wrong at single steps without moving the mean enough to see.",
 ["src/iterator.rs","src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/target_mod/cont_bulk.rs","src/agent_mod/cont_passive_merge.rs","src/time_mod/mod.rs"],[("composition of the parts","tests/n_ptl_rts_iterator.rs, tests/large_n_simulation.rs use pattern")])

p("C11","A written configuration header reads back to the same configuration",
 "For every component of the library (systems, targets, agents, time schemes, simulation parameters), the configuration block written into a result file is read back to exactly the values that were written, for every boundary condition, kind of motion, initial condition and every number, and whichever components come before or after it in the file. Data sets made from a file equal the ones made from the original arguments.",
 ["inputs","configurations"],"every value of every configuration field, including negative, tiny and huge numbers, every variant of the enumerated fields, vectors of every length",
 "Tests read one prepared file per component; a field whose text form is ambiguous silently makes result files unreadable later.",
 ["src/argument.rs","src/macros.rs","src/setup.rs","src/position.rs","src/agent_mod/types.rs","src/system_mod/mod.rs","src/target_mod/mod.rs","src/time_mod/mod.rs"],[("print_configuration","src/argument.rs impl_fn_print_configuration"),("read_args_from_lines","src/argument.rs impl_fn_read_args_from_lines"),("Display/FromStr of the enumerated types","src/agent_mod/types.rs, src/system_mod/mod.rs, src/target_mod/mod.rs, src/time_mod/mod.rs, src/position.rs")])

p("C12","A truncated or foreign header is refused, never read as another configuration",
 "Reading a configuration from a file that ends early (a run killed while writing), whose lines are not configuration lines, or that belongs to a different combination of components, reports an error; it never yields a configuration that was not written (only a cut in the middle of the very last value may leave a shorter value), and it never aborts the program. The same holds for reading a configuration from a list of arguments: a wrong number of arguments or an argument that is not a value of its field's type is refused with an error, and accepted arguments are assigned to the fields in the documented order.",
 ["crash_points","inputs"],"every line at which writing can stop, every damaged or exchanged line, every argument list of every length",
 "No test feeds a damaged file or malformed argument.",
 ["src/argument.rs","src/analysis.rs","src/position.rs","src/agent_mod/types.rs"],[("line and vector readers","src/argument.rs impl_fn_read_args_from_lines / impl_fn_read_args_from_vec"),("DataSet::from_file","src/analysis.rs construct_dataset")])

p("C13","Results are pooled exactly by physical configuration",
 "Analysing a directory produces exactly one result per distinct configuration that occurs in it, and that result is made of exactly the samples of all files with this configuration: files that differ only in parameters of the simulation run (set index, seed, number of ensembles) are pooled, files that differ in any physical parameter the data set lists are kept apart, however close the values. The outcome depends neither on the order in which files are read nor on how samples are split over files, and files that are not results of this simulation as well as subdirectories contribute nothing.",
 ["inputs","histories"],"every directory content: any number of files, splits, configurations (including ones with nearly equal or very large parameter values), foreign and truncated files",
 "Tests construct at most two data sets in memory; none analyses a directory.",
 ["src/analysis.rs","src/macros.rs"],[("grouping","src/analysis.rs Analysis::analyze"),("configuration identity","src/macros.rs derive_hash, src/analysis.rs construct_dataset PartialEq")])

p("C14","Every sample lands in exactly the right bin and every filled bin is exported",
 "Each sample within the histogram range, both ends included (a lower end of zero stands for 1e-15), is counted in exactly one bin of the linear and exactly one bin of the logarithmic histogram, the one whose interval contains it; samples outside of the range are counted in none, and no sample makes the analysis fail. Every bin that holds samples is exported once, with its centre and its count (and, where a density is exported, count/(ensemble * bin width)), for each recorded variable.",
 ["inputs","configurations"],"every range, bin size or number of bins and every sample, including samples exactly on bin edges and at the ends of the range, for all three kinds of analysis",
 "Tests add a few samples well inside of the range; edge samples, the last partial bin and exported text are not checked.",
 ["src/analysis.rs"],[("bin_pos/lbin_pos","src/analysis.rs construct_trait_bin"),("export_distribution","src/analysis.rs Analysis::export_distribution/export_log_scaled_distribution")])

p("C15","Summary statistics equal mean, deviation and count of the pooled samples",
 "For each analysed configuration the summary row states, under the matching column names, the number of ensembles, the mean and the standard deviation of exactly the pooled samples (for recorded processes the mean and deviation over all recorded points, and per time bin those of the points in the bin), to numeric accuracy and always as finite numbers. Clearing an analysis makes it indistinguishable from a new one with the same bins, so that it can be reused.",
 ["inputs","histories"],"every sequence of samples (constant, single, negative, large) and every interleaving of adding, drawing and clearing",
 "Tests compare mean and deviation for a few hand-picked samples; column naming, constant data and reuse after clearing are not covered.",
 ["src/analysis.rs"],[("add_ensemble/add_pair/draw/clear","src/analysis.rs"),("summary row and header","src/analysis.rs export_mean_stddev, export_form")])

p("C16","An analysis never overwrites earlier output or its inputs",
 "Each analysis of a directory writes into a directory of its own that did not exist before; no earlier analysis output and no data file is modified or removed, no matter how often analyses are repeated or which output directories of the day already exist. Within one analysis, different configurations get different histogram files, and repeating the analysis on the same data produces the same results.",
 ["histories"],"every sequence of repeated analyses (of any kind) on any directory content, including gaps among existing output directories",
 "No test runs an analysis on a directory.",
 ["src/analysis.rs"],[("output directory selection","src/analysis.rs Analysis::analyze"),("histogram file names","src/analysis.rs export_file_removed_idx")])

p("C17","The argument count selects simulation, analysis or help, arguments in order",
 "Called with exactly as many arguments as the components need, a program reads each component's arguments in the declared order and simulates; called with one of the two argument counts its analysis accepts, it performs that analysis on the given directory and nothing else; with any other count it prints help and returns an error without creating or changing any file. This holds for every kind of analysis and for both ways of passing the arguments.",
 ["inputs","configurations"],"every argument count and value, every combination of components, every kind of analysis, process arguments or a supplied list",
 "One test calls the fixed-list form with the right number of arguments.",
 ["src/setup.rs","src/analysis.rs"],[("mode selection","src/setup.rs setup_simulation / setup_simulation_fixed"),("argument slicing","src/setup.rs read_arguments, define_total_num_args"),("counts","src/analysis.rs Analysis::NUM_ARGS")])

p("C18","A simulation program writes one complete, re-readable result file per set",
 "For every combination of components the library offers, a program declared with the one-line simulation macro compiles, and its run creates one file in the requested directory (created if missing) whose name states every parameter of the data set including the set index, so that runs differing in any of them never share a file. The file starts with the complete configuration of all components in declared order, closed by the data marker, before any data are written, so analysing the directory finds the run's configuration and data.",
 ["programs","configurations","crash_points"],"every combination of the offered systems, targets, agents, time schemes and simulation kinds, and every argument value; a run stopped at any point after the header",
 "Tests use hand-written declarations for one combination; the macro's tests only cover its internal helper functions.",
 ["moledyn_proc/src/lib.rs","src/setup.rs","src/analysis.rs"],[("simulation! expansion","moledyn_proc/src/lib.rs"),("header writing","src/setup.rs export_simulation_info"),("file name","src/analysis.rs export_file")])

p("C19","Equal seeds give equal runs and in-place draws equal allocating ones",
 "Two generators made from the same seed produce the same sequence of numbers, positions, agents and displacements, generators made from different seeds do not share their sequence, and drawing depends on nothing but the generator. Each in-place variant consumes the generator as the allocating variant does and yields the same numbers: the plain ones replace the vector's content, the scaled ones add offset plus scale times the draw to it; uniform draws stay inside the requested interval.",
 ["inputs","histories"],"every seed and every sequence of draws of all kinds, dimensions, intervals and scales",
 "Tests check histograms of one seed; equality of variants and independence from earlier calls is for all sequences.",
 ["src/random_mod/mod.rs"],[("rng_seed, get_uniform*, get_gaussian*","src/random_mod/mod.rs")])

p("C20","Random displacements scale as sqrt(2 D dt), accumulate, and never half-apply",
 "The displacement drawn for an agent of any kind is the standard normal vector the generator yields, times sqrt(2 D dt), with the agent's dimension; the in-place form adds exactly that to the given vector and leaves the agent itself unchanged. A vector of another dimension or a kind of motion that is not provided is answered with an error, and the vector is left untouched.",
 ["inputs","histories"],"every agent kind, coefficient, time step, dimension, seed and prior content of the vector",
 "Tests compare a histogram for one agent kind; accumulation with earlier contributions (forces) and error paths are not checked.",
 ["src/agent_mod/cont_passive_indep.rs","src/agent_mod/cont_passive_merge.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs","src/random_mod/mod.rs"],[("random_move, random_move_to_vec","src/agent_mod/*.rs Passive impls")])

p("C21","Pair displacement is a unit vector to the other agent plus the distance",
 "For two distinct agents of any kind, the mutual displacement is the unit vector pointing from the first to the second together with their distance; exchanging the agents flips the vector and keeps the distance, the in-place form overwrites the given vector with the same result, and the plain distance agrees. Agents (or a vector) of different dimension are answered with an error and nothing is written.",
 ["inputs"],"every pair of distinct positions in every dimension, every agent kind, every prior content of the vector",
 "Tests use one or two pairs per agent kind in one dimension.",
 ["src/agent_mod/cont_passive_indep.rs","src/agent_mod/cont_passive_merge.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs","src/position.rs"],[("mutual_displacement, mutual_displacement_to_vec, mutual_distance","src/agent_mod/*.rs AgentCore impls")])

p("C22","Unusable configurations are refused by every way of constructing an object",
 "Systems with a size or dimension that is not positive or no number (or more mixed or circular coordinates than dimensions), and time schemes whose step, maximum step, limit or stage length is no number or cannot advance time as declared, are refused by the direct constructors and by construction from read arguments alike; everything usable is accepted by both, and for systems both give the same object (a growing scheme read from arguments may ask for stages of ten steps or more). An interacting agent given another kind of interaction, or an exponential interaction declared for another dimension than that of its position or system, is refused likewise. A refused change to an existing time scheme leaves it as it was.",
 ["inputs","configurations"],"every combination of constructor and setter arguments around and beyond the limits",
 "Tests check some constructor panics; agreement between the two construction paths, where bad values end in endless loops, is not tested.",
 ["src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/time_mod/mod.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs"],[("new / convert_from validation","src/system_mod/*.rs, src/time_mod/mod.rs, src/agent_mod/cont_passive_exp.rs, cont_passive_lj.rs")])

p("C23","Vector arithmetic is exact, agrees in all its forms and rejects mismatches",
 "Adding, subtracting, scaling, norm, distance and scalar product of positions are the coordinatewise operations, the in-place forms leave exactly the result of the allocating forms, operands passed by reference are unchanged, and clearing sets every coordinate to zero keeping the dimension. Vectors of different dimension are refused, leaving both as they are: their distance and scalar product with an error, their sum and difference, in every form, by a panic.",
 ["inputs"],"every pair of vectors of every dimension and every scalar",
 "Tests use one pair of short vectors per operation.",
 ["src/position.rs"],[("operators and Numerics","src/position.rs")])

p("C24","Objects made from read arguments carry exactly those arguments",
 "The objects a program builds from its read arguments carry exactly the given values: the declared number of agents, each starting at the declared position or, for uniform initialisation, not placed before it is renewed, with the declared motion, interaction and size; the target at its declared position; system, clock and simulation parameters equal to the declared ones. Building the same system, target, constant clock or placed agent directly through the constructors gives an equal object, and all agents of one declaration are independent of each other afterwards.",
 ["inputs","configurations"],"every component and every value of its arguments",
 "Tests convert one argument set for a few components and compare single fields.",
 ["src/agent_mod/cont_passive_indep.rs","src/agent_mod/cont_passive_merge.rs","src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs","src/target_mod/cont_bulk.rs","src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/time_mod/mod.rs","src/setup.rs"],[("convert_from","every component")])

p("C25","Interaction forces are the negative derivative of the potential",
 "For every interacting agent kind and every pair distance, the force returned is the negative derivative of the potential returned, to numeric accuracy.",
 ["inputs"],"every distance, strength and range",
 "Tests compare a few tabulated values.",
 ["src/agent_mod/cont_passive_exp.rs","src/agent_mod/cont_passive_lj.rs"],[("potential, force","src/agent_mod/cont_passive_exp.rs, cont_passive_lj.rs")])

p("C26","Random draws follow the uniform and normal distribution",
 "Uniform draws are uniformly distributed over the interval, normal draws normally distributed, random positions uniform over the system, and different draws independent.",
 ["inputs"],"every seed, in the limit of many draws",
 "Tests compare histograms of one seed with a tolerance.",
 ["src/random_mod/mod.rs","src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs"],[("generators and samplers","src/random_mod/mod.rs, src/system_mod/*.rs random_pos")])
p("C27","Exact reflection is the mirror image at the point of exit",
 "When a straight step leaves a circle or sphere, the exact reflection takes the end of the step to its mirror image in the tangent plane at the point where the step crosses the boundary; a mirror image that is outside itself is answered with an error, a step that stays inside is simply taken, and a position or displacement of another dimension is refused. The first order form gives the same result up to the second order of step over radius, and never accepts a position outside the system.",
 ["inputs"],"every radius, dimension, starting point, and direction and length of the step",
 "Tests compare three points in two dimensions with tabulated numbers.",
 ["src/system_mod/cont_circ.rs"],[("check_bc_exact, check_bc_first_order","src/system_mod/cont_circ.rs")])

p("C28","Every argument type reads back the text it writes and refuses other texts",
 "Every value of the argument types (kinds of systems, boundaries, targets, agents, motions, initialisations, interactions, time schemes, positions, pairs) is written as a text of its own that is read back as the same value, the numbers of a written time type up to six digits; the short forms of the command line mean the documented value. A text with a number missing or replaced by a word is answered with an error, never with a panic or another value, and what any accepted text means does not change when it is written and read again.",
 ["inputs"],"every argument type, every value of it, and every malformed text",
 "Tests convert one or two texts per type; malformed texts and the way back are hardly sampled.",
 ["src/macros.rs","src/agent_mod/types.rs","src/system_mod/mod.rs","src/time_mod/mod.rs","src/position.rs","src/analysis.rs"],[("Display and FromStr","src/agent_mod/types.rs, src/system_mod/mod.rs, src/time_mod/mod.rs, src/position.rs, src/analysis.rs Pair, src/macros.rs")])

p("C29","Help names exactly the words a program reads, in the order it reads them",
 "For every component and analysis, the short and the long help name the same words, one for each command line word the component reads and in the order they are read: changing a word changes exactly the field it is named after. A program called with too few words shows the help of exactly its own components, in declared order, and of its analysis.",
 ["programs","inputs"],"every component, every analysis, every word, every column width, and the programs declared from them",
 "Tests compare the whole help text of single components; that word and field belong together is not tested.",
 ["src/macros.rs","src/setup.rs","src/analysis.rs"],[("impl_fn_brief_info, impl_fn_info, impl_argument_trait","src/macros.rs"),("help of a program","src/setup.rs read_arguments, moledyn_proc/src/lib.rs")])

p("C30","A position is exactly the sequence of its coordinates",
 "A position behaves as the sequence of its coordinates under every way of building, reading and changing it: pushing, extending, indexing by number or range, iterating, mapping, clearing, comparing, printing with any number of digits and reading back. A copy is independent of its original, access beyond the end is refused, and a list of positions yields exactly the live ones in order.",
 ["histories","inputs"],"every history of operations on positions of any dimension",
 "Tests use single operations on two- or three-dimensional vectors.",
 ["src/position.rs","src/iterator.rs"],[("Position and its operators","src/position.rs"),("list of positions","src/iterator.rs")])

p("C31","Unusable analysis requests are refused before anything is done",
 "An analysis accepts any range with 0 <= minimum < maximum together with a bin width above zero and a logarithmic ratio above one, or with ten bins or more, and refuses every other range or width, no bins at all, words that are no numbers, and a wrong number of words. A refused request leaves the analysis object as it was and a directory untouched; an accepted one determines the object's settings whatever was asked before, the widths a number of bins is turned into fill the range exactly, and analysing adds exactly one directory. An analysis nothing was asked of or added to has seen nothing.",
 ["histories","inputs"],"every sequence of requests by width and by number, valid or not, to all kinds of analyses, and every list of words",
 "Tests convert one valid request per analysis.",
 ["src/analysis.rs"],[("update_from_bin_size, update_from_num_bin, convert_num_bin_to_bin_size","src/analysis.rs construct_trait_bin"),("analyze","src/analysis.rs Analysis impls")])

p("C32","Failing files are reported, never taken for success",
 "An analysis or the set-up of a simulation of which an output file cannot be written completely (full disk, limit of the file size, a place that is taken or missing), and an analysis of result files that are missing, foreign or hold lines that are no samples (words, values that are not finite, a wrong number of values, empty lines), end with an error and never with a panic; success is reported only when every output file is complete. Input files and earlier output are left as they were. A failure of the file system is reported as an input/output error, readable nonsense as a syntax error.",
 ["inputs","fault_sequences"],"every analysis and kind of system, every point at which a file may fail, and every kind of unusable line or file",
 "Tests write and read complete files in writable directories only.",
 ["src/analysis.rs","src/setup.rs","src/error.rs"],[("export of summaries and distributions, export_all, analyze","src/analysis.rs"),("export_simulation_info","src/setup.rs"),("classify","src/error.rs")])

p("C33","A refusal names a reason that applies, a request without defect is done",
 "Requests are refused exactly when something is wrong with them, and the error names something that is: a vector of another dimension (invalid dimension), a step too long to be brought back (too large a time step), a kind of motion that does not provide it (feature not provided), too few or too many words (number of arguments), a word or value that is none or out of range (invalid argument), a header line other than the one expected (invalid format), a file that ends early (invalid file), a file that cannot be read (input/output). Each error is of exactly one class, errors are equal when their classes are, and their texts tell the reasons apart.",
 ["inputs"],"every component and operation, every combination of defects of a request",
 "Tests compare errors by their class only, so a wrong reason passes; combinations of defects are not tried.",
 ["src/error.rs","src/argument.rs","src/system_mod/cont_circ.rs","src/system_mod/cont_cubic.rs","src/system_mod/cont_cyl.rs","src/agent_mod/types.rs"],[("kinds of errors, classes, texts","src/error.rs"),("refusals","src/argument.rs, src/system_mod/*.rs, src/agent_mod/*.rs, src/time_mod/mod.rs, src/position.rs, src/iterator.rs")])

p("C34","A set of arguments is exactly the record of its declared fields",
 "A set of arguments made from values, or read from words, holds each value in its own field, in the declared order, with the component's kind fixed by the component; changing one field changes no other, and a copy changes with neither. Two sets are equal exactly if all their fields are, the kind included. Clearing gives every field the default of its type and the kind its fixed value. The number of arguments stated by the set and by its component is the number of free fields, and the printed configuration labels every field of the set, in the declared order.",
 ["inputs","histories"],"every component with arguments; all histories of making, reading, copying, changing, comparing and clearing",
 "Tests make one set per component with one set of values and never clear, copy or compare sets that differ in one field.",
 ["src/macros.rs","src/argument.rs"],[("construct_structure, define_structure, impl_structure","src/macros.rs"),("impl_argument_trait, impl_fn_read_args_from_vec, impl_fn_print_configuration","src/argument.rs")])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
