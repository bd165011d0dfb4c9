"""Properties, statements and check descriptions; tools/gen.py writes the JSON files."""

SRC = "src/ampform_dpd/"
A, I, S, D, DB, DEC, Q, IO, SER = (SRC + x for x in (
    "angles.py", "__init__.py", "spin.py", "dynamics/__init__.py", "dynamics/builder.py",
    "decay.py", "adapter/qrules.py", "io/__init__.py", "io/serialization/"))
ATTRS = SRC + "_attrs.py"

POLY = "symbolic execution to exact polynomials; Z3 (QF_LRA over monomials, NRA for signs)"
FORK = "forking symbolic execution over bounded integers; Z3 decides branches and claims"

# id: title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)], technique, level_note
P = {}


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [])


prop("K01", "Decay angle of an isobar is the geometric polar angle",
     "For an isobar decaying to the cyclic pair (i, j) with spectator k, the formulated scattering angle equals the angle, in the rest frame of the isobar, "
     "between particle i and the direction opposite to the spectator, for every physical point and all masses including zero. "
     "Requests whose two IDs are equal or not final-state IDs 1, 2, 3 are rejected with an error.",
     ["inputs"], "all masses, all physical kinematic points, all pairs of IDs",
     "Tests pin the symbolic form of a few angles; they never compare an angle with the momenta it is defined by, nor at every point.",
     [A], [("formulate_scattering_angle", A)], POLY,
     "all masses >= 0, all momenta > 0; IDs -2..6")
prop("K02", "Initial-state rotation angles equal the opening angles of the subsystem axes",
     "The angle that rotates the quantisation axis of the decaying particle from one subsystem to another equals the signed angle between the two spectators' momenta "
     "in its rest frame, for every ordered pair of subsystems, all masses and every physical point, with zero for equal subsystems. "
     "Subsystem IDs other than 1, 2, 3 are rejected.",
     ["inputs"], "all masses, all physical points, all ordered pairs of subsystem IDs",
     "Tests check the symbolic form of one or two of the nine angles and their sign convention only.",
     [A], [("formulate_theta_hat_angle", A), ("formulate_zeta_angle", A)], POLY, "all masses >= 0, momenta > 0, non-collinear")
prop("K03", "Wigner rotation angles of the final states equal the geometric angles",
     "For each final-state particle and each ordered pair of subsystems (and the reference 'own chain'), the formulated Wigner rotation angle equals the signed angle, "
     "in the rest frame of that particle, between the directions that define its helicity in the two subsystems.",
     ["inputs"], "all masses of the other particles, every physical point, all (particle, subsystem, reference) triples",
     "Tests compare a handful of expressions with literature formulas and check a few sum relations; none relates an angle to momenta at every point.",
     [A], [("formulate_zeta_angle", A)], POLY, "rotated particle massive, other masses >= 0, non-collinear")
prop("K04", "Alignment rotations form a group: identity, inverse, composition, closure",
     "For each of the four outer particles, rotating from subsystem a to b and then from b to c is the rotation from a to c, exchanging the two subsystems inverts the rotation, "
     "and equal subsystems give no rotation, at every physical point.",
     ["inputs"], "all masses, all physical points, all triples of subsystems, all four particles",
     "The relations are tested numerically for one decay at a few points or symbolically for some triples.",
     [A], [("formulate_zeta_angle", A), ("formulate_theta_hat_angle", A)], POLY, "all masses >= 0 (rotated massive), momenta > 0")
prop("K05", "Angles are real exactly on the physical region of the Dalitz plane",
     "Every formulated angle is a real angle for a point of the Dalitz plane within the two-body thresholds if and only if the point is physically allowed, "
     "that is, on or inside the boundary on which the Kibble function vanishes.",
     ["inputs"], "all positive masses and all pairs of invariants with all breakup momenta positive",
     "No test evaluates angles near or outside the boundary.",
     [A], [("formulate_*_angle", A), ("Kibble/Kallen", "ampform.kinematics.phasespace")], POLY, "all masses > 0, Kallen functions positive")
prop("K06", "Invariants and masses of a model belong to their own pair and particle",
     "The invariant that a model defines for spectator k is, given the other two, always the squared mass of the other two final-state particles, "
     "and each mass symbol carries the mass of the particle with that ID, in whatever order the outer states of the decay are listed.",
     ["inputs", "configurations"], "all masses and physical points, all orders in which states are listed, all pairs of known invariants",
     "Tests use one ordering of the states and compare one or two concrete values.",
     [I], [("formulate_invariants", I), ("formulate_third_mandelstam", I), ("create_mass_symbol_mapping", I)], POLY, "all masses >= 0, all 24 state orders")
prop("B01", "Model intensity is the spin-summed square of the aligned amplitudes",
     "The intensity of a model equals the sum over all spin projections of the four outer particles of the squared modulus of the sum over subsystems of the subsystem amplitudes, "
     "each rotated to the reference subsystem with Wigner d-functions of the outer particles' spins.",
     ["inputs", "configurations"], "all values of amplitudes and angles; spins of the outer states and subsystem sets as listed in the bounds",
     "Tests pin hashes or symbol counts of a few models; no test compares an intensity with the formula for any value.",
     [I, S], [("DalitzPlotDecompositionBuilder.formulate", I), ("formulate_aligned_amplitude", I), ("create_spin_range", S)], POLY,
     "outer spins up to 3/2 in the listed configurations; amplitudes and angles free complex/real")
prop("B02", "Intensity does not depend on the reference subsystem",
     "Formulating the same decay with reference subsystem 1, 2 or 3 gives models whose intensities agree at every point of phase space for all amplitudes "
     "(for a half-integer spin of the decaying particle up to the known sign of one full turn per subsystem).",
     ["inputs", "configurations"], "all values of amplitudes and angles obeying the composition laws; spins and subsystem sets as listed",
     "The library's tests never compare models with different reference subsystems numerically.",
     [I, A], [("formulate_aligned_amplitude", I), ("formulate_zeta_angle", A)], POLY, "outer spins up to 3/2 in the listed configurations")
prop("B03", "Helicity-basis chain amplitudes follow the decay-plane formula",
     "In the helicity basis the amplitude of a subsystem is the sum over its resonances and their helicities of production coupling, decay coupling, lineshape, the phases (-1)^(j-helicity) "
     "for the particles that go second, sqrt(2j+1) factors and the Wigner d-function of the decay angle, with Kronecker selection of the initial helicity.",
     ["inputs", "configurations"], "all couplings, lineshapes and angles; spins and chain structures as listed",
     "Tests only pin the coupling names and overall hash of a few models.",
     [I, S], [("formulate_subsystem_amplitude", I), ("_create_scaling_factors", I)], POLY, "resonance spin up to 5/2 (thorough 7/2), listed outer spins, both orders of children")
prop("B04", "LS-basis chain amplitudes use the right Clebsch-Gordan factors",
     "With LS couplings at the production or decay vertex, the helicity amplitude of that vertex is the sum over the chain's (L, S) of the coupling times "
     "sqrt((2L+1)/(2j+1)) and the two Clebsch-Gordan coefficients that couple the product spins to S and S with L to the spin of the decaying particle.",
     ["inputs", "configurations"], "all couplings, lineshapes, angles; every allowed (L, S) up to L = 3; spins as listed",
     "Tests pin which couplings occur, not the coefficients with which they enter.",
     [I], [("formulate_subsystem_amplitude", I), ("_formulate_clebsch_gordan_factors", I)], POLY, "L <= 3, listed spins")
prop("B05", "A formulated model is closed and carries the particles' own masses and widths",
     "Every symbol on which a model depends is a listed parameter, one of the three invariants or a defined angle, and the default of each mass and width parameter "
     "is the mass or width of the particle it is named after, for any coupling basis, dynamics option and order of the states.",
     ["inputs", "configurations"], "all masses and widths; decay structures, bases and options as listed",
     "Tests evaluate a few complete models for one reaction; a wrong or missing default elsewhere is not noticed.",
     [I, DB], [("formulate", I), ("BreitWignerBuilder", DB)], POLY, "four decay structures x options; masses and widths symbolic")
prop("B06", "Formulation options do not change the physics",
     "Cleaning up summations, formulating all subsystems, replacing coupling pairs by single coefficients and choosing helicity or LS couplings only for one vertex give the same chain amplitudes "
     "and intensity for corresponding coupling values.",
     ["inputs", "configurations"], "all couplings, lineshapes, angles; every option; structures as listed",
     "Tests check the options' symbol counts, never that amplitudes agree.",
     [I], [("DalitzPlotDecompositionBuilder", I)], POLY, "listed decay structures, every option")
prop("B08", "Amplitudes superpose and do not depend on the order of the chains",
     "The amplitude of a subsystem is the sum of the amplitudes of its individual chains, formulated one by one, and listing the chains in another order gives the same amplitudes and intensity.",
     ["inputs", "configurations"], "all couplings, lineshapes, angles; orders and structures as listed",
     "Tests formulate each decay in one order and never decompose a model.",
     [I, DEC], [("formulate_subsystem_amplitude", I), ("ThreeBodyDecay.get_subsystem", DEC)], POLY, "up to 4 chains, three orders")
prop("B09", "Each decay chain is multiplied by exactly the dynamics registered for it",
     "A lineshape registered for a chain multiplies that chain's amplitude and no other, chains without registration keep unit dynamics, and registering again replaces the former choice, "
     "also if several chains share a resonance.",
     ["inputs", "configurations", "histories"], "all couplings and lineshapes, all subsets of registered chains, decays with repeated resonances",
     "Tests register the same lineshape for all chains.",
     [I], [("DynamicsConfigurator", I), ("formulate_subsystem_amplitude", I)], POLY, "up to 4 chains, all subsets")
prop("B10", "Formulating is repeatable and independent of earlier calls",
     "A model only depends on the decay, the options and the dynamics registered at that time: earlier formulate calls with other options or dynamics on the same builder do not change amplitudes, "
     "intensity or parameter defaults.",
     ["inputs", "histories"], "histories of up to three earlier calls; all couplings, lineshapes, angles",
     "Tests use a fresh builder for each model.",
     [I], [("DalitzPlotDecompositionBuilder.formulate", I)], POLY, "histories of up to 3 calls")
prop("B11", "The default reference subsystem is one with the most chains",
     "Without a given reference subsystem, amplitudes are aligned to a subsystem that has at least as many decay chains as each other one, and a decay without chains is an error; a given reference subsystem is always used, with a warning exactly if no chain belongs to it.",
     ["configurations"], "all assignments of up to five chains to subsystems",
     "Tests use two or three reactions.",
     [I], [("_get_best_reference_subsystems", I), ("formulate_aligned_amplitude", I)], FORK, "0 to 5 chains (thorough 6)")
prop("D01", "Breit-Wigner functions equal the textbook lineshape",
     "The relativistic, plain and simple Breit-Wigner functions equal their formulas for every angular momentum: the relativistic one with mass-dependent width, breakup momenta, phase space and "
     "Blatt-Weisskopf barrier factors, the plain one with the same pole term, the simple one with constant width.",
     ["inputs"], "all energies above threshold, all masses, widths, radii; L up to the bound",
     "Tests check the printed form or a few numbers.",
     [D], [("RelativisticBreitWigner", D), ("BreitWigner", D), ("SimpleBreitWigner", D)], POLY, "L up to the bound; everything else arbitrary")
prop("D02", "Barrier-weighted, Bugg and Flatte lineshapes equal their formulas",
     "The Breit-Wigner with minimal-L barrier factors, the Bugg lineshape and the S-wave Flatte function equal their defining formulas for all parameter values.",
     ["inputs"], "all energies above the thresholds involved, all masses, widths, couplings, radii; angular momenta up to the bound",
     "These functions have no value tests over their parameters.",
     [D], [("BreitWignerMinL", D), ("BuggBreitWigner", D), ("FlatteSWave", D)], POLY, "L up to the bound")
prop("D03", "Multichannel Breit-Wigner adds the widths of all its channels",
     "A multichannel Breit-Wigner equals mass over (mass^2 - s - i mass times the sum of the channels' mass-dependent widths), in every order of the channels, and with one channel it has the same pole term as the plain one.",
     ["inputs", "configurations"], "all parameter values; up to three channels in any order, L up to the bound",
     "One test compares one expression.",
     [D], [("MultichannelBreitWigner", D), ("ChannelArguments", D)], POLY, "1..3 channels")
prop("D04", "Lineshape builder uses the kinematics of its own chain",
     "The lineshape built for a decay chain depends on the invariant, masses, angular momenta and radii of that chain: the relativistic Breit-Wigner of the resonance in the pair's invariant mass "
     "with the chain's decay L, times the selected production and decay barrier factors of the chain's own vertices.",
     ["inputs", "configurations"], "all masses, widths, radii, energies; all three subsystems, orders of products, options, L up to the bound",
     "Tests pin the hash of one combination for one reaction.",
     [DB], [("BreitWignerBuilder.__call__", DB)], POLY, "all option combinations, L <= 2 (thorough 3); one known finding (decay form factor)")
prop("D05", "Products of defined lineshapes multiply expressions and join parameters",
     "The product of defined expressions, (expression, parameters) pairs, symbols and numbers has the product of the expressions and all parameters of the factors, those of later factors taking precedence, and leaves its factors as they were.",
     ["inputs", "configurations"], "all values of the factors; all kinds and numbers of factors in the bound",
     "Tests multiply lineshapes of one reaction.",
     [I], [("DefinedExpression.__mul__", I)], FORK + "; expressions compared by Z3", "up to three factors")
prop("S01", "Spin projections of a particle are complete and exact",
     "The projections generated for spin j are exactly -j, -j+1, ..., j in increasing order as exact rationals, however the spin is given, and a range between two half-integers holds exactly the values start, start+1, ... that do not exceed its end.",
     ["inputs"], "all spins in the bound, all number types",
     "Tests list three or four spins.",
     [S, ATTRS], [("create_spin_range", S)], FORK, "spins up to the bound")
prop("S02", "Generated LS couplings are exactly the allowed ones",
     "The generator of LS couplings for a vertex returns every (L, S) allowed by angular-momentum coupling up to the maximum L (3 by default), each once and in increasing order, and nothing else.",
     ["inputs"], "all spins and maximum L in the bound",
     "Tests list a few spin combinations.",
     [S], [("generate_ls_couplings", S)], FORK, "spins up to the bound")
prop("S03", "Parity filter keeps exactly the parity-conserving couplings",
     "Filtering couplings by parity keeps exactly those (L, S) for which the product of the three parities equals (-1)^L, in order.",
     ["inputs"], "all parities and couplings in the bound",
     "Tests cover a few parities.",
     [S], [("filter_parity_violating_ls", S)], FORK, "L up to the bound")
prop("E01", "Only consistent three-body decays can be created",
     "A chain is accepted exactly if its four outer particles are numbered states with different IDs, a decay exactly if each of its chains has the declared initial and final states, and a spin exactly if it is integer or half-integer; it is then stored exactly. Everything else is rejected with an error.",
     ["inputs", "configurations"], "all ID assignments, chain structures and spins in the bound",
     "Tests reject one or two concrete invalid decays.",
     [DEC, ATTRS], [("ThreeBodyDecay.__attrs_post_init__", DEC), ("ThreeBodyDecayChain.__attrs_post_init__", DEC)], FORK, "as bounds in evidence")
prop("E02", "Subsystems partition the chains, and lookups return the chain asked for",
     "Selecting a subsystem keeps exactly the chains with that spectator, in order, with unchanged states, and looking up a resonance name returns the first chain of that resonance or an error. "
     "A chain exposes the states, resonance and LS couplings it was made of for either order of its vertices' products; the decay products of a subsystem are in cyclic order.",
     ["inputs", "configurations"], "all chain structures in the bound",
     "Tests look at one decay.",
     [DEC], [("ThreeBodyDecay.get_subsystem/find_chain", DEC), ("ThreeBodyDecayChain", DEC)], FORK, "as bounds in evidence")
prop("A01", "Converting reaction transitions keeps every chain and its quantum numbers",
     "Converting a set of transitions to a three-body decay yields each distinct combination of spectator, resonance and LS couplings exactly once, with masses, widths, spins, parities, names and IDs "
     "of all particles unchanged, whatever state numbering, spin projections or mapping order the transitions have.",
     ["inputs", "configurations"], "all structures, couplings, numbering, orders in the bound",
     "Tests convert a few fixed reactions and count chains.",
     [Q], [("to_three_body_decay", Q), ("_to_decay_chain", Q), ("convert_transitions", Q)], FORK, "2 transitions (thorough 3)")
prop("A02", "Minimal-LS filter keeps the lowest coupling of each chain and vertex",
     "Filtering for minimal LS couplings leaves one transition per spectator, resonance and (if only one vertex is filtered) coupling of the other vertex, carrying the lowest L and then S of its group "
     "at every filtered vertex and its own coupling elsewhere, for any list or iterator of transitions.",
     ["inputs", "configurations"], "all couplings, resonances, spectators, vertex selections in the bound",
     "Tests count remaining transitions for fixed reactions.",
     [Q], [("filter_min_ls", Q)], FORK, "3 transitions")
prop("A03", "Permuting identical final states adds exactly the exchanged chains",
     "Permuting equal final states returns, for each transition, it and every transition in which the spectator is exchanged with an identical particle, each once, with states and interactions unchanged.",
     ["inputs", "configurations"], "all identity patterns, spectators, numberings in the bound",
     "Tests use two fixed reactions.",
     [Q], [("permute_equal_final_states", Q)], FORK, "all identity patterns of three particles")
prop("A04", "Relabelling state IDs preserves the decay graph",
     "Relabelling maps the state IDs in increasing order to 0, 1, 2, ... and leaves particles, decay graph and interactions otherwise unchanged, for single transitions (also partial ones as in problem sets), topologies and collections.",
     ["inputs", "configurations"], "all state IDs and graph orders in the bound",
     "Tests relabel one numbering.",
     [Q], [("normalize_state_ids", Q)], FORK, "IDs in the bound")
prop("G01", "Deserialised decays contain exactly the defined states and chains",
     "Converting a JSON definition gives each outer state its index, name, mass and spin, and contains every distinct chain (spectator, product order, resonance, spin) exactly once, "
     "whatever the order of state lists, decay products, vertices and topologies. Unknown particles and ambiguous or unusable definitions are rejected with an error.",
     ["inputs", "configurations"], "all listing orders, chain structures, spins and numbers in the bound",
     "Tests convert one published definition and look at a few entries.",
     [SER + "decay.py", SER + "format.py"], [("to_decay", SER + "decay.py"), ("get_initial_state, get_final_state", SER + "decay.py")], FORK, "as bounds in evidence")
prop("G02", "Deserialised lineshapes and form factors are the defined functions",
     "The lineshapes, multichannel lineshapes and form factors of a definition evaluate, with their own default parameters, to the Breit-Wigner and Blatt-Weisskopf functions with exactly that definition's numbers "
     "in the kinematics of their own chain, also if several functions and chains are combined in one model. Function types that are not supported are refused.",
     ["inputs", "configurations"], "all energies and masses, all numbers of the definitions, subsystems and L in the bound",
     "Tests check symbol names and one checksum that is known to differ; they do not relate a function to its definition.",
     [SER + "dynamics.py", SER + "amplitude.py"], [("formulate_dynamics", SER + "dynamics.py"), ("formulate_form_factor", SER + "dynamics.py"), ("formulate_chain_amplitude", SER + "amplitude.py")], POLY,
     "as bounds in evidence; one radius per model part is a known finding")
prop("G03", "Deserialised amplitudes combine the defined couplings and rotations",
     "A deserialised chain amplitude is weight times dynamics times the recoupling of the production vertex, the rotation by the decay angle and the recoupling of the decay vertex, summed over helicities as the definition's vertices "
     "(helicity, parity or LS) state, and the intensity is its aligned spin sum with the definition's reference topology.",
     ["inputs", "configurations"], "all angles, weights and dynamics values, spins and vertex kinds in the bound",
     "Tests compare parts of one chain of one decay as symbols.",
     [SER + "amplitude.py"], [("formulate", SER + "amplitude.py"), ("formulate_aligned_amplitude", SER + "amplitude.py"), ("formulate_recoupling", SER + "amplitude.py")], POLY,
     "spins listed in evidence; stated helicities in other components are a known finding")
prop("G04", "Options and earlier calls do not change a deserialised model",
     "Formulating a definition with rendered names, cleaned summations or builders for other function types, or after other definitions, options and builders were used, gives the same amplitudes, intensity and default values up to the names of parameters. "
     "A builder that is given for a function type is used for exactly that type in that call, and the definition is left unchanged.",
     ["inputs", "histories", "configurations"], "all numbers of the definition, kinematics, angles and lineshape values; options, histories and structures as listed",
     "Tests formulate one definition with one set of options.",
     [SER + "amplitude.py", SER + "dynamics.py"], [("formulate", SER + "amplitude.py"), ("formulate_dynamics", SER + "dynamics.py")], POLY,
     "listed structures, options and histories")
prop("H01", "Markdown tables and rendered chains show the values of their objects",
     "A Markdown table of particles, states, chains or a decay has one row per entry, in order, with as many cells as headers, that shows its spin-parity, its mass and width in MeV rounded to integers and its LS couplings in the columns labelled so. "
     "A chain is rendered with its particles in order and its LS couplings at the right vertex.",
     ["inputs", "configurations"], "all masses, widths, spins, parities and couplings in the bound, all combinations of present and absent couplings",
     "Tests render one or two fixed decays.",
     [IO], [("as_markdown_table", IO), ("aslatex", IO)], FORK, "as bounds in evidence")
prop("B07", "Complete expression of a model is its intensity with its amplitudes inserted",
     "The fully expanded expression of a model equals the aligned, spin-summed squared modulus of the textbook chain amplitudes for all couplings, lineshape values and angles, and contains no amplitude symbols any more, whether it is taken from the model or unfolded with the caching helpers.",
     ["inputs", "configurations"], "all couplings, lineshape values and angles; decays, bases and options in the bound",
     "Tests hash the expanded expression of one model; they do not say what it computes.",
     [I, SRC + "io/cached.py"], [("AmplitudeModel.full_expression", I), ("unfold", SRC + "io/cached.py")], POLY, "decays in evidence")
prop("C01", "Compiled functions compute the expression they were compiled from",
     "A function compiled from a lineshape, angle, amplitude or intensity returns the value of that expression in double precision for all arguments, with the parameter defaults that were given, and after updating parameters with the new values.",
     ["inputs", "configurations"], "all arguments and parameter values; expressions and parameter modes in the bound",
     "Tests only check that a compiled function is returned and cached.",
     [SRC + "io/cached.py"], [("lambdify", SRC + "io/cached.py")],
     "symbolic execution of the compiled JAX program; Z3 (QF_LRA over monomials)", "kinematics above threshold, scalar arguments")
prop("C02", "Compiling is independent of what was compiled or updated before",
     "Whatever was compiled earlier, in this process or in another one that shares the disk cache, and however the parameters of an earlier function were updated, compiling an expression with parameters gives the function of exactly that expression with exactly those defaults.",
     ["histories", "inputs"], "all arguments; all histories of compile and update requests in the bound",
     "Tests compile one expression and look at the number of cache files.",
     [SRC + "io/cached.py"], [("lambdify/_lambdify_impl", SRC + "io/cached.py")],
     "bounded histories; symbolic execution of the compiled program; Z3 (QF_LRA over monomials)", "2 or 3 requests, two processes")

NA = {}
