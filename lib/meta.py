"""Per check: technique, level, how cases are made and what makes one non-trivial, assumptions.
`python3 lib/meta.py` writes MANIFEST.json."""
import json, os, sys
EUL = ("random connected systems (lines, points, rods, bodies of every attachment kind, random properties, seabed, water: still/current/Airy waves/bathymetry and their combinations) "
       "with random smooth prescribed motions, stepped by the Euler scheme with one internal step per call; after every call the whole observable state and the water kinematics "
       "at every node are recorded, and every recorded evaluation is judged against an independent numpy model; ")
M = {
 "C01": ("AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over random valid decks and call sequences", "exploration",
         "random decks using tables, every water and bed mode, all schemes, output channels and files, logs, failure entries, both equilibrium solves, through random legal call sequences (early close, two interleaved systems, snapshots, run-time controls, external kinematics, legacy interface); an observation is one API call under the sanitizers; distinct: tool x water x scheme x interface"),
 "C02": ("mutation fuzzing of decks and auxiliary files under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer", "exploration",
         "decks as in C01 with 1 to 4 mutations (lines or fields dropped, duplicated, swapped, replaced by hostile tokens, truncated bytes, random bytes, merged decks) in the deck or any auxiliary file; whatever is accepted is initialised, stepped, queried and closed; distinct: mutated file x mutation x outcome"),
 "C03": ("online kinematic-constraint monitor over recorded dumps, all time schemes", "exploration",
         "random mixed systems x 17 time schemes x random step lengths, with and without initial-condition solve; non-trivial: scheme x set of attachment kinds x IC actually seen in a sane (not diverged) dump"),
 "C04": ("trace oracle: reference lumped-mass force model on every recorded evaluation", "exploration",
         EUL + "distinct: water kind x submergence/slack/bed/bending/pressure regime x node count x tables"),
 "C05": ("trace oracle: reference point balance on every recorded evaluation", "exploration", EUL + "distinct: water kind x point kind x number of attached ends x mass/volume"),
 "C06": ("trace oracle: reference rigid-cylinder model on every recorded evaluation", "exploration", EUL + "distinct: water kind x rod kind x nodes x dry/partial/wet"),
 "C07": ("trace oracle: reference rigid-body model on every recorded evaluation", "exploration", EUL + "distinct: water kind x body kind x mounted rods and points"),
 "C09": ("trace oracle: replay of the explicit schemes with a reference right-hand side; refinement monitor for all schemes; clock monitor", "exploration",
         "random systems x explicit schemes x uneven step lengths with several internal steps (replay), and smooth systems x all 19 scheme names x 3 internal steps (refinement); distinct: scheme x internal steps x object kinds"),
 "C08": ("trace oracle: load balance of driven objects with canary-guarded arrays", "exploration", EUL + "distinct: water kind x sequence of driven object kinds"),
 "C14": ("differential oracle: reported water kinematics against a reference linear-wave model over space and time", "exploration",
         "random spectra, elevation records and grids (single, list, lattice axes), depths, bathymetry; queries over random places and times incl. grid nodes and sample instants; wave numbers over 5 decades; distinct: mode x bed x grid shape"),
 "C15": ("differential oracle: reported water velocity against reference interpolation of the supplied profiles", "exploration",
         "random steady, dynamic and 4D profiles (incl. single-valued axes, shuffled rows, other notations of the same coordinate), alone and with every wave mode, unified or not; queries over places and times inside, on and beyond the profile; distinct: mode combination x bed x profile shape"),
 "C10": ("trace oracle: bitwise comparison of restored, rewound, saved-often and undisturbed runs, and of the serialised data", "exploration",
         "random systems x all 19 schemes x water kinds x save moment x file or buffer x run-time line controls; every reported quantity of every later step compared; distinct: comparison x scheme x water x medium"),
 "C11": ("fault injection on snapshot files under ASan/UBSan/LSan, with a state-unchanged monitor", "exploration",
         "random systems x all schemes; per system 12 of some 30 damages: missing, cut anywhere, extended, wrong magic, version or length, altered list lengths, scrambled words, snapshots of other systems, shapes or schemes; unwritable targets; distinct: damage x scheme"),
 "C16": ("trace oracle: reference force models fed with the supplied kinematics, node by node; split-call monitor", "exploration",
         "random systems with externally driven waves (alone and with each current mode), random update patterns (all nodes, one node, repeated sets, late first set, held values); sampling points compared with the node positions at every step, and every node's load judged against the reference models under the supplied values; distinct: current mode x update pattern x object kinds"),
 "C17": ("differential oracle: reported depths against reference bilinear interpolation; trace oracle for contact on uneven beds", "exploration",
         "random bathymetry grids (1 to 7 lines per axis, rows in any order, uneven spacing) queried inside, on and outside every edge, and random systems lying on such beds, every node's contact force judged against the reference model; distinct: grid shape x region, bed kind x contact regime"),
 "C18": ("trace oracle: output files parsed and compared, row by row and column by column, with the API dumps of the same step", "exploration",
         "random systems, waters, schemes, step lengths, output intervals, channel lists (any case, several per line, unknown objects mixed in) and per-line and per-rod flags; header, units, instants and values are judged; an observation is one value or instant compared; distinct: object x quantity x first row or later"),
 "C19": ("metamorphic monitor: bitwise comparison of runs of differently written equivalent decks", "exploration",
         "random rich decks and call sequences, each rewritten four ways: keyword aliases and case, short forms of body columns, documented defaults stated or omitted, option order, unused types, section titles and column headings, number notation, comments behind options, spacing, front matter, file end, CR LF; every API record and output file compared; distinct: rewriting x water"),
 "C20": ("metamorphic monitor: transformed twin runs compared quantity by quantity", "exploration",
         "random systems and waters (still, steady current, bathymetry, wave components) with random motions, run again moved, turned, mirrored, renumbered and reordered, with line ends swapped, all at once, or beside an unconnected system; distinct: transformation x water x object kinds"),
 "C21": ("runtime monitoring: poses, times and later behaviour of the real library after each kind of initialisation, checked online against the deck, an independent catenary solver, a second system put into the same state from a snapshot, and the stillness of held systems", "exploration", "random systems and moorings, waters and equilibrium settings with either method or none; distinct: method x water x object kinds, and kinds of starting shapes"),
 "C22": ("online monitor: every control call tracked, forces of every line in every evaluation recomputed from the tracked values, readings compared after every call and step", "exploration", "random systems, waters and sequences of control calls between steps; distinct: kind of call x water, state of the line, scheme"),
 "C24": ("online monitor: step and factor read back after every change and compared with the natural periods of the lines; metamorphic: a coupling step against its internal steps taken one by one, a local-timestep scheme against one started afresh", "exploration", "random decks giving step, factor, both or none, and random sequences of changes between steps; distinct: rule in force x objects, scheme x change"),
 "C23": ("AddressSanitizer and UBSan over every public function called with null handles, indices out of range and invalid values; return codes, dumps and serialised state compared before and after, and with a twin run that was not misused", "exploration", "random systems with misuse before initialisation and between steps; distinct: function x kind of argument, water and moment of the run"),
 "C25": ("differential monitor: every legacy call paired with the current one on a twin system in the same process, return codes and every value compared bit for bit; AddressSanitizer and LeakSanitizer on part of the runs", "exploration", "random sequences of initialise, step, read, fail, replace and close over several decks; distinct: function x waters, schemes and events of the history"),
 "C26": ("online monitor of the energy (kinetic, gravity and buoyancy, elastic, seabed) and the momentum of passive systems, computed from the recorded states alone", "exploration", "random passive systems with and without drag, damping and seabed contact; distinct: scheme x dissipation x contact, objects"),
 "C27": ("online monitor of attachments, freed-end kinematics and loads around every scheduled failure, with the attachment tables of the deck and its schedule as the specification", "exploration", "random failure schedules (points, rod ends, several lines, duplicates, coincident times, time 0, beyond the run) x step sizes x schemes; distinct: failure kind x number of lines x scheme"),
 "C28": ("twin monitor: the same system driven through the Python wrapper and through the C functions, compared bit by bit under AddressSanitizer and UndefinedBehaviorSanitizer; allocation monitor", "exploration",
         "random decks as in C01, one system driven through the package moordyn and its twin through the C functions of the same shared object with the same random sequence of initialisation, steps, line controls, external water, snapshots and logs; every getter of every object (all nodes, indices out of range) compared; some 200 kinds of misuse, each must raise or return an error code and leave the state alone; repeated calls must keep no memory; distinct: function x outcome and misuse kinds seen"),
 "C29": ("twin monitor: the system made by the Python generator against the system read from an independently written deck, compared bit by bit", "exploration",
         "random systems (every attachment kind the generator offers, short and long notations of coefficients, failures, options) described to the package's generator, part of the values given at construction and part through attributes in random order before or after the object is added; the twin is read from a deck written by the check; every getter of every object after initialisation and every step, and the returned loads, must agree bit by bit; distinct: numbers of objects of each kind and functions seen"),
 "C30": ("twin monitor: the same system driven through a Fortran program using every function of the module and through the C functions, compared bit by bit under AddressSanitizer; guard values around every array", "exploration",
  "random decks as in C28; every function of the module called as a Fortran program would (whole arrays and sections of stride 2 and 3 of guarded buffers, texts with trailing blanks), the twin through C; returned codes, values, times, log files and terminal output must agree; distinct: function x outcome, water kind"),
 "C12": ("ThreadSanitizer on systems driven from concurrent threads; bitwise comparison of interleaved and concurrent runs with solo runs", "exploration",
         "2 to 5 random rich decks per case, each with a random legal call sequence: solo, woven call by call in one process (systems closed and opened in between), and each in a thread of its own with a common start; an observation is one compared API record; distinct: way of running x number of systems x water kinds x schemes"),
 "C13": ("bitwise comparison of repeated executions under perturbed circumstances", "exploration",
         "random rich decks and call sequences, run again in a fresh process, on a heap filled with rubbish (MALLOC_PERTURB_), with every kind of query inserted between the calls, after or beside other systems, with other logging, other requested outputs, and from another working directory; every step's forces, the final state and the bytes of every output file are compared; distinct: circumstance x water x scheme"),
}
NOTE = {
 "C28": "Bitwise comparison with the C functions on random systems and call sequences, misuse included; no proof over all argument values. The VTK functions answer 'not implemented' in this build and are compared as such.",
 "C29": "Bitwise comparison with an independently written deck on random moorings of everything the generator offers.",
 "C30": "Bitwise comparison with the C functions on random systems and call sequences, through gfortran on this platform's calling convention only.",
 "C27": "Loads after a failure are judged with the Euler scheme; the other schemes are judged on attachments, times and continuity.",
 "C26": "Energy: lines and points without added mass, bending stiffness or free surface, where the model has an energy.",
 "C25": "Bit-for-bit agreement; runs are cut where the motions diverge.",
 "C23": "Null output pointers and handles of closed systems are the caller's fault and not exercised.",
 "C24": "The natural frequency is accepted as coded or with the factor two of the troubleshooting section.",
 "C22": "Forces judged with the explicit Euler scheme, lengths and readings with every scheme.",
 "C21": "starting shapes are judged for lines with linear stiffness; an equilibrium is judged only where the library reports having found one",
 "C20": "States to 1e-6 m, loads to 1e-6 of the largest, with a conditioning test (rounding-size change of the inputs) before an alarm; unconnected systems bit for bit.",
 "C19": "All records and files equal bit for bit.",
 "C18": "Values to the six digits written; segment values of line files against the reference model at the evaluated state (Euler runs).",
 "C12": "Data races on the executions run (ThreadSanitizer, happens-before); results equal bit for bit.",
 "C13": "Results and files equal bit for bit.",
 "C01": "Memory errors, undefined arithmetic, leaks on the executions run; reads of uninitialised memory on the valgrind share of them.",
 "C02": "No abnormal end, no escaped exception, no leak, no hang on any mutant.",
 "C03": "Runs of the real library; the constraint is evaluated on every dump, tolerance 1e-9 relative.",
 "C04": "Every reported per-node quantity compared with the model to 1e-7; the Euler scheme makes force and state pairing exact.",
 "C05": "Force and mass to 1e-8, motion from the observed force.",
 "C06": "Force and mass to 1e-7; motion replayed from observed force and mass.",
 "C07": "Force and mass to 1e-7; motion replayed from observed force and mass.",
 "C09": "Replay to 2e-7, convergence order from three refinements, clock to 1e-9.",
 "C08": "Returned force array compared with the model balance to 1e-7 and with the getters exactly.",
 "C14": "Elevation, velocity, acceleration, pressure to 3e-5 of their scale; the last interval of a wave period (documented as not interpolated) is not judged.",
 "C15": "Velocity to 3e-5 of its scale.",
 "C10": "All reported quantities must be equal bit for bit (zeros of either sign count as equal).",
 "C11": "Refusal is judged by return code, unchanged by bitwise comparison of all reported state and of the continuation; memory safety by the sanitizers.",
 "C16": "Sampling points exact; loads to 1e-7.",
 "C17": "Depths to 1e-9 relative on grids of dyadic values; contact forces to 1e-7.",
}
NA = []
def finish_args(pid):
    t, lv, rule = M[pid]; return lv, rule
if __name__ == "__main__":
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    ch = []
    for p in ids:
        if p not in M: continue
        ch.append({"property": p, "quick_cmd": "python3 lib/vp.py %s quick" % p, "thorough_cmd": "python3 lib/vp.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": M[p][0], "level": M[p][1], "level_note": NOTE[p]})
    na = [{"property": p, "reason": dict(NA).get(p, "check under construction")} for p in ids if p not in M]
    m = {"version": 1, "setup_cmd": "python3 lib/build.py plain", "checks": ch, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(ch), "checks", len(na), "n/a")
