#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PG, SY = "src/pgraphs.rs", "src/symmetries.rs"
LA, MS, MX, GE = "src/arithmetic/linear_algebra.rs", "src/arithmetic/modular_solver.rs", "src/arithmetic/matrices.rs", "src/arithmetic/geometry.rs"
BA, LT, PO, PT, FI = ("src/spacegroups/" + f for f in ("basics.rs", "lattices.rs", "parse_operator.rs", "parse_table.rs", "finder.rs"))
CL, CB = "src/io/parse_cgd_line.rs", "src/io/parse_cgd_blocks.rs"
PA = "src/partitions.rs"

p("C01", "Barycentric placement is an exact equilibrium",
  "For every periodic graph whose quotient graph is connected, each vertex is placed exactly (as rationals) at the average of all its neighbours' positions, counting every edge end with its lattice shift. The vector of a directed edge equals position(tail) + shift - position(head), reversing an edge negates its vector, and the normalized position is the position reduced into [0,1) in every coordinate.",
  ["inputs"], "every quotient-connected 2- and 3-periodic multigraph, any vertex numbering and any lattice shifts",
  "The unit tests print or spot-check a handful of nets; nothing compares the placement with the defining equations for arbitrary graphs, sizes, shifts or vertex numbers.",
  [PG, MS], [("Laplacian system set up over incidences", PG + ": barycentric_placement"), ("p-adic solver", MS + ": solve"), ("edge vector / normalized position", PG + ": edge_vector, position_normalized")],
  ["Graph::position", "Graph::edge_vector", "Graph::position_normalized"])

p("C02", "The symmetry list is exactly the automorphism group of the net",
  "For every connected, locally stable periodic graph the reported symmetries are, without repetition, exactly all pairs of a bijection of vertices and edges and a unimodular linear map that carry every edge to an edge with correspondingly transformed edge vector, counted modulo lattice translations. The list contains the identity and is closed under composition and inversion.",
  ["inputs"], "every connected, locally stable 2- and 3-periodic graph in every presentation (vertex names, choice of cell, basis)",
  "Tests only compare the number of symmetries of six highly symmetric nets, so missing or spurious symmetries of low-symmetry nets, other bases or bigger cells go unnoticed.",
  [SY, PG], [("seed edge lists and base change", SY + ": symmetries, characteristic_edge_lists"), ("map propagation", SY + ": automorphism"), ("group closure", SY + ": multiplicative_group"), ("composition and equality", PG + ": Automorphism")],
  ["Graph::symmetries"])

p("C03", "Vertex and edge orbits are the orbits of the full automorphism group",
  "For every connected, locally stable periodic graph the reported vertex orbits partition the vertices, two vertices being in one orbit exactly if some automorphism of the net carries one to a translate of the other. The same holds for undirected edges and the reported edge orbits, and nothing is omitted or listed twice.",
  ["inputs"], "every connected, locally stable 2- and 3-periodic graph",
  "Tests only count orbits of a few nets that have one vertex orbit; nets with several inequivalent vertices or edges, or orbits joined only by improper symmetries, are not sampled.",
  [PG, SY, PA], [("orbit accumulation", PG + ": vertex_orbits, edge_orbits"), ("class listing", PA + ": classes")],
  ["Graph::vertex_orbits", "Graph::edge_orbits"])

p("C04", "The minimal image is the net divided by all its translations",
  "For every connected, locally stable periodic graph without coinciding vertex positions, the minimal image exists exactly if the net has translational symmetries beyond its given lattice. It is then a periodic graph whose net is isomorphic to the original one, has exactly one vertex per class of translation-equivalent vertices, and is itself minimal.",
  ["inputs", "configurations"], "every net and every finite-index supercell presentation of it, in every cell basis and origin gauge",
  "Tests cover axis-aligned doublings of the square net; centred or skew supercells, three dimensions and nets with several vertices per cell are untested.",
  [SY, LT], [("translation basis and base change", SY + ": minimal_image, extended_translation_basis"), ("lattice basis", LT + ": rational_lattice_basis")],
  ["minimal_image"])

p("C05", "Translation classes are the orbits of all translational automorphisms",
  "For every connected, locally stable periodic graph without coinciding vertex positions, the translational orbits partition the vertices so that two vertices share an orbit exactly if a pure translation that maps the net onto itself carries one to a lattice translate of the other. All orbits have the same size, and the graph is reported minimal exactly if that size is one.",
  ["inputs", "configurations"], "every stable net in every supercell presentation, vertex naming and gauge",
  "Tests list orbits of two or three supercells of the square net only.",
  [SY, PA], [("translational equivalences", SY + ": translational_equivalences, raw_translational_equivalences"), ("orbit listing", SY + ": translational_orbits, is_minimal")],
  ["translational_orbits", "is_minimal"])

p("C06", "Ladders are detected exactly and their symmetries are complete",
  "A connected, locally stable periodic graph is reported as a ladder exactly if it has a fixed-point-free automorphism with identity linear part that moves some vertex onto a different vertex at the same position modulo the lattice. The reported ladder symmetries are exactly these automorphisms, each once, and for a net with no coinciding vertex positions there are none.",
  ["inputs"], "every connected, locally stable net, including multi-sheet nets with straight or twisted connections",
  "Tests use one straight double-sheet square net and its doubled cell; twisted sheets, nets that only collide accidentally and 3-periodic nets are not covered.",
  [SY], [("detection", SY + ": is_ladder, ladder_symmetries"), ("coincidence modulo lattice", SY + ": mod1")],
  ["is_ladder", "ladder_symmetries"])

p("C07", "Connectivity and component measures describe the infinite net",
  "For every periodic graph and vertex, the component measures give the number of quotient vertices reachable from it, the rank of the translation lattice of its component, and, exactly when that rank is full, the number of disjoint translates of that component (the index of the lattice). The graph is reported connected exactly if the infinite net is connected.",
  ["inputs"], "every 2- and 3-periodic graph, connected or not, of any periodicity, with any shifts and vertex numbering",
  "No unit test exercises components; the example program prints three nets.",
  [PG, LA], [("tree traversal with shift adjustment", PG + ": traverse_with_shift_adjustments"), ("lattice rank and index", PG + ": graph_component_measures"), ("echelon basis", LA + ": extend_basis")],
  ["graph_component_measures", "Graph::is_connected"])

p("C08", "Coordination sequences count the shells of the infinite net",
  "For every periodic graph and start vertex, the k-th number produced (k = 1, 2, ...) is the number of vertices of the infinite net at graph distance exactly k from that vertex. This holds with loops, parallel edges and disconnected nets, for any number of sequences in progress on the same graph.",
  ["inputs", "histories"], "every 2- and 3-periodic graph, start vertex and length, and every interleaving of several iterators",
  "No unit test checks a coordination sequence.",
  [PG], [("shell iteration", PG + ": CoordinationSequence::next"), ("incidence lists", PG + ": incidences")],
  ["Graph::coordination_sequence"])

p("C09", "Stability, collision and unique-edge queries follow from the positions",
  "A quotient-connected graph is stable exactly if no two vertices share a position modulo the lattice, locally stable exactly if no two edges at one vertex have equal vectors, and has second-order collisions exactly if two vertices share both their position modulo the lattice and their multiset of edge vectors. Looking up an edge by start vertex and vector yields the edge exactly if precisely one edge at that vertex has that vector.",
  ["inputs"], "every quotient-connected 2- and 3-periodic graph, every vertex and every candidate vector",
  "No unit test checks these predicates except indirectly through two should-panic cases; triple collisions and collisions of more than two edges are not sampled.",
  [PG], [("predicates", PG + ": is_stable, is_locally_stable, has_second_order_collisions"), ("lookup table", PG + ": edges_by_unique_deltas, edge_by_unique_delta")],
  ["Graph::is_stable", "Graph::is_locally_stable", "Graph::has_second_order_collisions", "Graph::edge_by_unique_delta"])

p("C10", "A graph is the set of its undirected edges",
  "Graphs built from any edge lists denoting the same set of undirected shifted edges, in whatever order, direction or repetition, are indistinguishable: same printed form, vertices, incidences and directed edges. The vertices are exactly the endpoints in ascending order, each vertex's incidences list every edge end at it exactly as often as the set has ends there, and an edge and its reverse have the same canonical form.",
  ["inputs"], "every finite edge list, with every permutation, reversal and duplication of it",
  "Tests construct graphs only from clean lists and never compare two constructions.",
  [PG], [("canonical edges, dedup and sorting", PG + ": Edge::canonical, Graph::new"), ("derived lists", PG + ": vertices, incidences, directed_edges")],
  ["Graph::to_string", "Graph::vertices", "Graph::incidences", "Graph::directed_edges", "Edge::canonical"])

p("C11", "Answers of a graph do not depend on the order of queries",
  "Whatever sequence of queries has been made on a graph value, the next query returns the same answer a freshly built equal graph would give, and repeated queries agree. Answers already handed out are not changed by later queries.",
  ["histories"], "all query sequences over one graph value (positions, vectors, incidences, lookups, predicates, symmetries, orbits, sequences in progress)",
  "Results are cached behind interior mutability; tests call one query per fresh graph and never compare histories.",
  [PG, SY], [("lazily filled caches", PG + ": vertices, incidences, position, edge_by_unique_delta, symmetries")],
  ["all public queries of Graph"],
  state=[("caches", "lazily computed vertices, incidences, positions, edge lookup and symmetries", PG + ": struct Graph")])

p("C12", "Shift normalization only moves vertices to other cells",
  "For every periodic graph, connected or not, the shift-normalized graph has the same vertices and the same number of edges and arises from the original by choosing a lattice vector per vertex and changing each edge's shift by the difference of its end vertices' vectors. In it every connected component of the quotient graph has a spanning tree of edges with zero shift.",
  ["inputs"], "every 2- and 3-periodic graph, any number of components, loops and parallel edges",
  "No unit test exercises shift normalization.",
  [PG], [("breadth-first re-gauging", PG + ": shift_normalized, traverse_with_shift_adjustments")],
  ["Graph::shift_normalized"])

p("C13", "Invariants of a net do not depend on how it is presented",
  "Renaming vertices, changing the lattice basis by a unimodular matrix or moving vertices to other cells leaves the symmetry count, the orbit sizes, stability, ladder, minimality and connectivity verdicts and the coordination sequences unchanged, and carries orbits and positions along. Passing to a supercell keeps the coordination sequences, the connectivity and the local stability of the net.",
  ["inputs", "histories"], "every chain of presentation changes applied to every net",
  "Tests look at each net in a single presentation.",
  [PG, SY], [("all net analyses", PG + ": Graph queries; " + SY)],
  ["Graph queries on two presentations of one net"])

p("C14", "Shift labels form an ordered lattice",
  "The 2- and 3-dimensional shift labels add, subtract and negate componentwise and convert to and from coordinate vectors without loss. Every label is exactly one of zero, positive or negative, negation swaps positive and negative, and sums of positive labels are positive. One label compares less than another exactly if the difference from it to the other is positive, and they compare equal exactly if their entries are.",
  ["inputs"], "all pairs of labels from a coordinate range",
  "No unit test calls these operations directly.",
  [PG], [("label vectors", PG + ": LabelVector2d, LabelVector3d")],
  ["LabelVector operations"])

p("C15", "Reduced bases are canonical for the row lattice or row space",
  "The reduced basis of a matrix generates exactly the same row lattice (integers) or row space (rationals) as the matrix, is in echelon form with positive (rationals: unit) pivots, and every entry above a pivot lies in [0, pivot) (rationals: is zero). Two matrices with the same row lattice or space therefore have identical reduced bases.",
  ["inputs"], "every integer or rational matrix of any shape and rank, without arithmetic overflow (and floating point matrices for which elimination is exact)",
  "Three example matrices are tested; the canonical range of entries above pivots for negative multiples is not.",
  [LA], [("incremental elimination", LA + ": extend_basis, clear_column"), ("normalization", LA + ": normalize_column, reduce_column, reduced_basis")],
  ["LinearAlgebra::reduced_basis"])

p("C16", "Linear systems are solved exactly when solvable",
  "Solving A X = B returns some X with A X = B exactly if one exists in the number type at hand (integer solutions for integer matrices, rational ones for rational matrices), and otherwise reports that there is none. This holds for any shapes and ranks of A and any number of right-hand sides.",
  ["inputs"], "every pair of matrices with equal row counts, integer and rational (floating point where exact), all ranks",
  "A few solvable systems are tested; unsolvable integer systems with rational solutions and rank-deficient shapes hardly.",
  [LA], [("row reduction and back substitution", LA + ": solve, solve_row")],
  ["LinearAlgebra::solve"])

p("C17", "Matrix inverses exist exactly for invertible matrices and are two-sided",
  "A square matrix has an inverse reported exactly if it is invertible over its number type: determinant not zero for rationals, determinant plus or minus one for integers. The reported inverse multiplied with the matrix from either side gives the identity.",
  ["inputs"], "every square integer or rational matrix (floating point where exact)",
  "Only one or two matrices are inverted in tests.",
  [LA], [("inverse via solve", LA + ": inverse, solve")],
  ["LinearAlgebra::inverse"])

p("C18", "Rank and null space satisfy the rank theorem",
  "The reported rank of a matrix is the size of its largest nonvanishing minor. The null space matrix has columns that the matrix sends to zero, exactly as many as columns minus rank and linearly independent, none being reported exactly if the rank is full; over the integers its columns generate all integer solutions.",
  ["inputs"], "every integer or rational matrix of any shape and rank (floating point where exact)",
  "Two null spaces are tested; integer saturation never.",
  [LA], [("rank and null space", LA + ": rank, null_space")],
  ["LinearAlgebra::rank", "LinearAlgebra::null_space"])

p("C19", "Determinants are exact in every dimension",
  "The determinant of every square integer or rational matrix equals the signed sum over permutations, including its sign, for sizes handled by closed formulas and by elimination alike. It is multiplicative and invariant under transposition.",
  ["inputs"], "every square matrix up to size six in all zero patterns and ranks",
  "Tests evaluate a few small matrices; the sign bookkeeping of the elimination path depends on the order in which pivots appear.",
  [LA], [("closed formulas and elimination", LA + ": determinant, extend_basis")],
  ["LinearAlgebra::determinant"])

p("C20", "The p-adic solver returns the exact rational solution",
  "For every integer system with an invertible square matrix and integer right-hand sides the solver returns the exact rational solution, however large numerators and denominators get and whatever primes divide the determinant. It reports no solution only if the matrix is singular.",
  ["inputs"], "every square integer system, including determinants and entries divisible by the working prime and results at the reconstruction bound",
  "There is no unit test of the solver beyond positions of small nets.",
  [MS], [("number of lifting steps", MS + ": number_of_p_adic_steps_needed"), ("lifting and reconstruction", MS + ": solve, rational_reconstruction")],
  ["modular_solver::solve"])

p("C21", "Modular matrix helpers are correct modulo the prime",
  "For every prime and integer argument the modular inverse is the multiplicative inverse in [1, p) or absent exactly if the argument is divisible by the prime. The modular echelon form is reduced, has entries in [0, p) and spans the same row space modulo p; the modular matrix inverse exists exactly if the determinant is not divisible by p and is two-sided; modular and integer products agree with the definition.",
  ["inputs"], "every small prime, every argument including negative ones and multiples of the prime, every small matrix including rank-deficient ones",
  "No unit test covers these helpers.",
  [MS], [("extended Euclid", MS + ": modular_inverse"), ("elimination", MS + ": modular_row_echelon_form, modular_matrix_inverse"), ("products", MS + ": modular_matrix_product, integer_matrix_product")],
  ["modular_inverse", "modular_row_echelon_form", "modular_matrix_inverse", "modular_matrix_product", "integer_matrix_product"])

p("C22", "Matrix arithmetic follows the algebraic definitions",
  "Sums, differences, negatives, products, and scalar operations of matrices have the entries the textbook definitions give, in every combination of owned and borrowed operands, and leave operands passed by reference unchanged. Operands of incompatible shape are refused, never silently combined.",
  ["inputs"], "every pair of small matrices of all shapes and every operand form",
  "One or two 2x2 and 2x3 products are tested.",
  [MX], [("operator implementations", MX + ": Add, Sub, Neg, Mul, Div")],
  ["Matrix operators"])

p("C23", "Matrices are built, sliced, stacked and transposed without moving entries",
  "Building, indexing, slicing, stacking, reshaping, extracting rows or columns and transposing matrices place every entry where the row-major definition says, for all non-empty shapes and ranges, and transposing twice, or stacking the slices of a cut matrix, restores it. Unit vectors and identities have ones exactly where required and identity tests accept exactly identity matrices; out-of-range requests are refused.",
  ["inputs"], "every shape up to a bound, every slice range, every cut into blocks",
  "One or two shapes are tested per operation.",
  [MX], [("structural operations", MX + ": new, row, col, reshape, hstack, vstack, submatrix, get_row, get_rows, get_col, transpose, identity, unit_vector, is_identity")],
  ["Matrix structural operations"])

p("C24", "Incremental basis extension preserves the lattice and its orientation",
  "Feeding vectors one after another to the basis extension keeps the basis in echelon form and generating exactly the lattice (rationals: space) spanned by all vectors so far, whatever the order. The product of the pivots of d independent vectors in d-space equals their determinant including the sign, and the extended gcd returns a gcd with valid Bezout coefficients and cofactors.",
  ["histories", "inputs"], "every sequence of vectors up to a depth from a small alphabet in dimensions 1 to 4, and every pair of integers in a range",
  "Two or three sequences are tested.",
  [LA], [("insertion with sign correction", LA + ": extend_basis"), ("extended Euclid", LA + ": gcdx, clear_column")],
  ["extend_basis", "gcdx"])

p("C25", "Affine maps act and compose as a group on points and vectors",
  "Composition of affine maps is application in sequence on points and on vectors (which ignore the shift), the identity is neutral, and an inverse exists exactly if the linear part is invertible and then undoes the map from both sides. Points and vectors obey the affine-space laws (point minus point is the vector between them, adding it back restores the point) and all owned and borrowed operand forms agree.",
  ["inputs"], "every small affine map, point and vector in 2 and 3 dimensions and every operand form",
  "Tests apply a few fixed maps.",
  [GE], [("operators", GE + ": AffineMap, Point, Vector")],
  ["AffineMap", "Point", "Vector"])

p("C26", "Coordinate changes commute with everything they carry over",
  "Changing coordinates and back is the identity on points, vectors, maps and scalar products; the change of a composition is the composition of the changes; applying a carried-over map to a carried-over point gives the carried-over result; and carried-over scalar products of carried-over vectors are unchanged. Changes built from or to a basis send the basis to unit vectors or back, and scalar products accept exactly symmetric positive definite matrices.",
  ["inputs"], "every small invertible coordinate change, operand and basis in 2 and 3 dimensions",
  "Tests check fixed examples with one map.",
  [GE], [("coordinate maps and scalar products", GE + ": CoordinateMap, ScalarProduct")],
  ["CoordinateMap", "ScalarProduct"])

p("C27", "Generated operator lists are the group modulo lattice translations",
  "For every finite set of space group generators the generated list contains, exactly once each, one representative of every coset modulo integer translations of the group they generate, starting with the identity. Reduction modulo the lattice identifies exactly those vectors or operators whose shifts differ by integers, negative ones included.",
  ["inputs"], "every generator set from crystallographic linear parts and rational shifts that generates a finite group modulo lattice translations",
  "Tests generate one group from two generators with positive shifts.",
  [BA, GE], [("closure", BA + ": generate"), ("reduction", GE + ": mod_z")],
  ["generate", "ModZ::mod_z"])

p("C28", "Symmetry operators are parsed to the map they denote or rejected",
  "The longest beginning of a text that is a coordinate triplet (or a pair or single coordinate in lower dimensions) of fractions, signs, axes and blanks in the operator notation is parsed to exactly the affine map it denotes, summing repeated terms, and the unparsed remainder is returned. Text without such a beginning, or using axes beyond its number of coordinates, is rejected; no input makes the parser fail abnormally.",
  ["inputs"], "every string up to a length over the operator alphabet and every sentence of the grammar up to a size",
  "Tests parse a dozen fixed strings.",
  [PO], [("grammar", PO + ": parse_operator")],
  ["parse_operator"])

p("C29", "Space group tables are read completely or refused, never crash",
  "For every text the table reader either returns the tables the text denotes (settings with all their operators in order under the most recent canonical name, aliases, lookup entries, the last definition of a name winning) or refuses it, and it does so for arbitrary truncations, corruptions and line endings. Coordinate changes that are singular, operators of the wrong dimension or followed by other text, and incomplete lines are refused without a crash.",
  ["inputs", "fault_sequences"], "all sequences of line kinds up to a depth including malformed ones, all truncations of the shipped table, all delivery chunkings and read errors",
  "Tests do not cover the table reader; an example program reads the intact shipped table once.",
  [PT, PO], [("line loop", PT + ": parse_space_group_table, make_lookup_entry"), ("operator conversion", PT + ": AffineMap::from_string, CoordinateMap::from_string"), ("printing", PT + ": write_op")],
  ["parse_space_group_table", "Tables", "Tables::lookup_settings"])

p("C30", "The shipped space group tables are coherent as read and printed",
  "Read from the shipped table, every setting's operators form a group modulo lattice translations containing the identity, the setting's coordinate change (taking its coordinates to those of its canonical setting) carries them onto exactly the operators and lattice of the canonical setting, every alias names a listed setting or the common stem of settings listed with a choice after a colon, and every lookup entry names a listed setting, its coordinate change carrying the setting into a right-handed cell with the stated centering, in the standard position of the stated crystal system. Printing a setting or lookup entry shows operators in a notation that parses back to the same maps, and selecting lookup entries by crystal system and centering returns exactly those so marked, in table order.",
  ["configurations"], "all settings, operators, aliases and lookup entries of the shipped table and all pairs of crystal system and centering",
  "No test reads the table.",
  [PT, "src/data/sgtable.data", "src/spacegroups/types.rs"], [("table data and reader", PT + ": parse_space_group_table, Display, lookup_settings"), ("names", "src/spacegroups/types.rs: Display")],
  ["parse_space_group_table", "TableEntry Display", "Lookup Display", "Tables::lookup_settings"])

p("C31", "The Gram configuration space is exactly the invariant metrics",
  "For every non-empty set of symmetry operators the reported Gram configuration space is a basis of exactly the symmetric matrices G with S^T G S = G for the linear part S of every operator (S acting on coordinate columns), given by their upper-triangular entries row by row. It is reported absent exactly if only the zero matrix is invariant.",
  ["inputs"], "all operator sets from integer matrices of finite order and small general matrices in dimensions 2 and 3",
  "Four operator sets are tested, all orthogonal in the given basis, for which transposed conventions cannot be told apart.",
  [BA], [("equation set-up and null space", BA + ": gram_matrix_configuration_space")],
  ["gram_matrix_configuration_space"])

p("C32", "The shift space is exactly the directions left fixed by all operators",
  "For every non-empty set of symmetry operators the reported shift space is a basis of exactly the vectors fixed by the linear part of every operator. It is reported absent exactly if only the zero vector is fixed; for operators with identity linear parts it is the full space.",
  ["inputs"], "all operator sets from integer matrices of finite order and small general matrices in dimensions 1 to 3",
  "Four operator sets are tested, none of which fixes everything.",
  [BA], [("equation set-up and null space", BA + ": shift_space")],
  ["shift_space"])

p("C33", "Reduced lattice bases span the lattice and have minimal length",
  "For every basis and positive definite scalar product in dimension 2 or 3 the reduced lattice basis consists of vectors generating exactly the same lattice, sorted by length and realizing the successive minima, the first having non-positive product with the others. The Dirichlet vectors contain, up to sign, every vector of the lattice that bounds its Dirichlet domain and are themselves lattice vectors.",
  ["inputs"], "all integer and rational bases from a range under all small positive definite integer metrics",
  "A handful of bases under the standard product are tested.",
  [LT], [("Lagrange and Selling reduction", LT + ": dirichlet_vectors, lagrange_reduced, selling_reduced"), ("selection", LT + ": reduced_lattice_basis")],
  ["reduced_lattice_basis", "dirichlet_vectors"])

p("C34", "Dirichlet shifts are lattice vectors into the Dirichlet domain",
  "For every lattice, scalar product and position, the shift computed for the Dirichlet domain terminates, is a lattice vector, and moves the position to a point at least as close to the origin as to every other lattice point. Positions that differ by a lattice vector and lie off the domain's boundary are moved to the same point.",
  ["inputs"], "all small lattices and metrics in dimensions 2 and 3 and all positions on a fractional grid including ties on the boundary",
  "One lattice and a few positions are tested.",
  [LT], [("iterative shifting", LT + ": shift_for_dirichlet_domain")],
  ["shift_for_dirichlet_domain"])

p("C35", "Rational lattice bases generate the integer lattice plus the given vectors",
  "For every non-empty list of rational vectors of one dimension the reported lattice basis consists of as many vectors as dimensions and generates exactly the lattice spanned by the integer lattice together with the given vectors. This holds for negative, repeated, zero and integer vectors and any order.",
  ["inputs", "histories"], "all lists up to length three of vectors on fractional grids in dimensions 1 to 3",
  "Two lists are tested.",
  [LT, LA], [("common denominator and incremental basis", LT + ": rational_lattice_basis")],
  ["rational_lattice_basis"])

p("C36", "Primitive settings absorb exactly the centering translations",
  "For every group of operators given modulo lattice translations, the primitive setting's cell is a right-handed basis of the full translation lattice, its coordinate change maps that cell to unit vectors, and its operators are exactly the group's operators carried over, once each modulo the primitive lattice. This includes groups without any centering translation.",
  ["inputs"], "all groups generated by crystallographic operators and centering vectors in dimensions 2 and 3, and all shipped settings",
  "One centred rectangular group is tested.",
  [BA, LT], [("construction", BA + ": PrimitiveSetting")],
  ["PrimitiveSetting (through a guarded hook)"], hook="public constructor and getters for the private primitive-setting type")

p("C37", "Two-dimensional point groups get the right crystal system and basis",
  "For every finite group of integer 2x2 matrices in any lattice basis, the crystal system reported is hexagonal, square, rectangular or oblique according to the highest rotation order and the presence of mirrors. The reported basis is right-handed and linearly independent, its first vector lies on a mirror axis if there is one. The second vector is its image under a rotation of order three in hexagonal and of order four in square groups; in rectangular ones the mirror on the first vector negates it. The order in which operators are listed and repetitions, as in centred groups, do not matter.",
  ["inputs"], "all finite subgroups of integer matrices with entries in a range, in any order of listing, with repetitions",
  "Four groups are tested, each in one basis and order.",
  [FI], [("classification", FI + ": OperatorDetails, crystal_system_and_basis_2d")],
  ["crystal_system_and_basis_2d (through a guarded hook)"], hook="public wrapper for the private classification functions")

p("C38", "Operator details classify every crystallographic matrix correctly",
  "For every integer matrix of finite order in dimensions 1 to 3 the derived details give its multiplicative order (zero if beyond six or infinite), whether it preserves orientation, and its axis: the direction fixed by it (by its negative for improper ones in odd dimensions) exactly if that direction is unique. For finite orders above two the rotation sense, about the axis direction reported, is that of the operator in every right-handed basis; an operator and its inverse have opposite senses.",
  ["inputs"], "all integer matrices with entries in a range in dimensions 1 to 3",
  "A dozen matrices are tested, each in one basis.",
  [FI], [("details", FI + ": OperatorDetails, operator_axis, matrix_order")],
  ["OperatorDetails (through a guarded hook)"], hook="public wrapper for the private operator details")

p("C44", "Two-dimensional cells are normalized within their lattice",
  "For every lattice given by any basis in the coordinates of its crystal system's basis, the normalized cell, together with the centre if the cell is reported as centred, spans exactly that lattice. Rectangular cells have their first vector along the second axis and their second vector along the first axis, whichever is shorter, and in square and hexagonal cells the second vector is the first one rotated by 90 and 120 degrees.",
  ["inputs"], "all lattices of each two-dimensional crystal system from a table of parameters, each in all bases up to a size",
  "Not tested at all.",
  [FI, LT], [("normalization", FI + ": normalized_basis_2d, apply_operator"), ("reduction", LT + ": reduced_lattice_basis")],
  ["normalized_basis_2d (through a guarded hook)"], hook="public wrapper for the private normalization")

p("C39", "Crystal data lines are tokenized by the documented rules",
  "Every line is split at blanks into an optional leading key and fields, each field being a fraction, integer, decimal number, quoted string or bare name in this order of preference, ending at a comment sign; integers and fractions keep their exact value. Names that merely begin like a number keep to these rules, characters outside ASCII are ordinary name characters, text that cannot be tokenized is returned unparsed, and no line makes the tokenizer fail abnormally.",
  ["inputs"], "every line up to a length over an alphabet of one representative per character class and every sequence of token forms up to a depth",
  "Five lines are tested.",
  [CL], [("grammar", CL + ": parse_cgd_line, field, fraction, name, key")],
  ["parse_cgd_line"])

p("C40", "Crystal data files are cut into blocks without losing entries",
  "For every sequence of lines, the blocks found are the stretches from a block type line to its end line or the end of input, with exact first and last line numbers, and every non-blank line up to the last block's end appears in exactly one block, in order, under the lower-case key in force. A missing type or end, data outside a block, text after a type or end keyword and text that cannot be tokenized are each flagged by exactly the corresponding note, and nothing else is flagged.",
  ["histories", "inputs"], "every sequence of line kinds up to a depth",
  "One file with three blocks is tested.",
  [CB], [("block state machine", CB + ": parse_blocks"), ("line entries", CB + ": parse_lines")],
  ["parse_blocks", "parse_lines"],
  state=[("block state", "current block, key in force, inside/outside", CB + ": parse_blocks")])

p("C41", "Readers give the same result however the input is delivered",
  "The result of reading crystal data or space group tables depends only on the bytes of the input: any chunking, short reads and interrupted reads give the same result, with line ends LF or CRLF. A read error or invalid text makes the table reader refuse; in crystal data it is recorded as an error entry at its place, entries before it are kept, and reading always terminates, even if the error persists.",
  ["fault_sequences", "inputs"], "all chunkings of short inputs, all positions of interruptions, transient and persistent errors and invalid bytes",
  "Tests read from complete in-memory slices only.",
  [CB, PT], [("line iteration", CB + ": parse_lines"), ("line iteration", PT + ": parse_space_group_table")],
  ["parse_lines", "parse_blocks", "parse_space_group_table"])

p("C42", "Partitions realize exactly the equivalence generated by the unions made",
  "After any sequence of unions and queries two elements have the same representative exactly if they are connected by unions made so far, elements never mentioned being alone. Listing classes for a list of distinct elements gives each listed element exactly once, grouped by equivalence, in order of first appearance, and queries never change the partition.",
  ["histories"], "all sequences of unions, finds and class listings up to a depth over a small universe",
  "One sequence of unions over a few integers is tested.",
  [PA], [("union by rank with path compression", PA + ": unite, find, classes")],
  ["Partition::unite", "Partition::find", "Partition::classes"],
  state=[("forest", "parent and rank arrays", PA + ": PartitionImpl")])

p("C43", "Translation classes of ladders separate coinciding vertices",
  "For every ladder whose translational automorphisms split off their position-fixing part, the translational orbits come from a group of translational automorphisms, all have the same size equal to the index of the lattice in the lattice of all its translations, and never contain two vertices at the same position. A minimal image of such a net exists exactly if that index exceeds one and has one vertex per orbit and a net isomorphic to the original.",
  ["inputs", "configurations"], "every multi-sheet net in every supercell presentation",
  "One doubled double-sheet square net is tested.",
  [SY], [("complement selection", SY + ": translational_equivalences"), ("image", SY + ": minimal_image")],
  ["translational_orbits", "minimal_image", "is_minimal"])

p("C45", "Printed forms show exactly the entries of the object",
  "The numbers in the printed form of an object, read line by line from left to right, are exactly its entries: the rows of matrices and scalar products, one coordinate per line for vectors and points, each row followed by its shift for affine maps and for the forward map of coordinate changes, the coordinates of a shift label, head, shift and tail of an edge, and one such line for every undirected edge of a graph. So objects that differ are printed differently.",
  ["inputs"], "every matrix, vector, map, label, edge and small graph over grids with extreme, negative and fractional entries in all shapes",
  "No test looks at printed forms of these objects.",
  [MX, GE, PG], [("matrix display", MX + ": Display"), ("geometry display", GE + ": Display"), ("net display", PG + ": Display")],
  ["Matrix::to_string", "AffineMap::to_string", "Graph::to_string", "Edge::to_string"])

p("C46", "Objects of different coordinate systems cannot be combined",
  "No expression that adds, subtracts, multiplies, compares or applies vectors, points, scalar products, affine maps, coordinate changes, shift labels, edges or graphs of coordinate systems that do not belong together, or that adds two points, is accepted by the compiler. The results of accepted ones belong to the coordinate system the definitions give: a coordinate change takes objects of its source system to its target system, and composes only with changes into its source.",
  ["configurations"], "all binary operations on all pairs of types over three coordinate systems, owned and borrowed, and the functions and constructors with all choices of systems",
  "Two documentation tests refuse one expression each; the rule is about all of them.",
  [GE, PG], [("coordinate system parameters", GE + ": Vector, Point, ScalarProduct, AffineMap, CoordinateMap"), ("labels", PG + ": LabelVector2d, LabelVector3d, Edge, Graph")],
  ["rustc on expressions of these types"])

p("C47", "Safe code that uses the library never breaks memory safety",
  "Whatever a program without unsafe code does with graphs, coordination sequences, partitions, matrices, vectors and the parsers of cells, points and numbers, no memory is read or written that does not belong to the object, nothing is used after it was freed, and there is no data race: for all histories of queries; for indices, vertices, edges and sizes the object does not have (refused by a panic or answered, but the object stays as it was); for element and label types whose own comparison, hash or copy asks the same object again (the inner and the outer question are answered as if they were the only ones, or refused by a panic or by blocking, and what the object answers afterwards is right); and for use from several threads or beyond the life of a graph, which the compiler either refuses, or which is answered as by one thread.",
  ["schedules", "histories", "inputs", "configurations"], "all short histories of queries on small graphs and partitions, all points at which an element can call back, all indices around the shape of small matrices and vectors, all texts of up to two of 14 signs, executed by an interpreter that watches every memory access; compiler decisions about threads and lifetimes, with the admitted uses executed",
  "Caches are filled through shared references without locks or run-time checks; tests ask one question at a time from one thread and cannot see a wrong access that happens to return the right bytes.",
  [PG, PA, MX], [("caches", PG + ": Graph (UnsafeCell fields)"), ("path compression", PA + ": Partition::find"), ("indexing", MX + ": Index, get_row, get_col, submatrix")],
  ["Graph queries", "CoordinationSequence", "Partition::{find, unite, classes}", "Matrix accessors"])

with open(OUT, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
