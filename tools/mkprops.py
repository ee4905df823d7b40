#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the statements are easy to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "pairinteraction/"
G = "pairinteraction_gui/pairinteraction/"
G2 = "pairinteraction_gui/"
props = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                  "anchors": {"files": files,
                              "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                              "observe_at": list(observe), "hook_needed": None}})


prop("C01", "The in-memory cache is one atomic write-once map for all threads",
     "Every save, restore and clear of the in-memory cache takes effect at one instant between its "
     "call and its return, for any number of threads. A key that is present is never overwritten "
     "(a second save is refused and changes nothing), a lookup returns exactly the value stored "
     "last under an equal key or nothing, and no element is used after it was destroyed.",
     ["schedules", "histories"],
     "all interleavings of save/restore/clear by several threads, keys with colliding hashes, and "
     "all sequential histories",
     "The unit test performs five calls in one thread; the guarantee is about interleavings and "
     "about every history.",
     [P + "Cache.hpp"],
     [("one mutex around every access of the table", P + "Cache.hpp"),
      ("emplace refuses to overwrite", P + "Cache.hpp: save")],
     [("cache", "key -> element", P + "Cache.hpp")], ["return values and exceptions"])

prop("C02", "Quantum-defect answers depend only on the database contents and the level",
     "The quantum-defect parameters, effective quantum number, energy and nuclear charge reported "
     "for a level are those given by the rows of the selected database for that species and level, "
     "whatever was asked before, in whichever order, from whichever thread, and whichever other "
     "database was used in between. Concurrent requests for the same level all get that answer, and "
     "a level, species or database that does not exist is refused without spoiling later requests.",
     ["histories", "schedules", "inputs"],
     "all sequences of requests over species, levels and databases (including repeated, missing and "
     "re-written ones), from one or several threads",
     "The existing test asks a handful of levels of the built-in database once, in one thread.",
     [P + "QuantumDefect.cpp", P + "QuantumDefect.hpp", P + "Cache.hpp", P + "SQLite.hpp"],
     [("static cache keyed by species, n, l, j and cleared when the database changes",
       P + "QuantumDefect.cpp"),
      ("row selection by largest tabulated l and j", P + "QuantumDefect.cpp: setup")])

prop("C03", "SQL statements deliver every row exactly once and enforce their life cycle",
     "For a query with any number of result rows, both stepping and the range iteration deliver "
     "every row exactly once, in order, with the values the database holds, and then stop. Reading "
     "before a row was fetched, stepping without preparing, or preparing an invalid query is refused "
     "with an exception, after which the statement and the connection can be used again.",
     ["inputs", "histories"],
     "all result sizes, column types and all sequences of the statement operations",
     "The existing test iterates one query with exactly two rows and uses one fixed sequence of "
     "calls.",
     [P + "SQLite.hpp"],
     [("prepared/valid flags", P + "SQLite.hpp: statement"),
      ("iterator over rows", P + "SQLite.hpp: statement::iterator")])

prop("C04", "Programs sharing one database wait for each other and lose nothing",
     "When several connections or processes use one database file at the same time, each statement "
     "waits for the lock instead of failing, and a transaction becomes visible to the others either "
     "completely, when it is committed, or not at all, also when its process is killed in the "
     "middle. Nothing a committed transaction wrote is lost.",
     ["schedules", "crash_points"],
     "all interleavings of transactions of several processes on one file, and a kill at any point "
     "of a transaction",
     "No existing test opens a database twice; one concurrent run of two threads would sample a "
     "single interleaving.",
     [P + "SQLite.hpp", P + "SQLite.cpp"],
     [("busy handler that sleeps and retries", P + "SQLite.hpp: handle"),
      ("immediate transactions", P + "SQLite.hpp")])

prop("C05", "The configuration store is a typed map that survives saving to JSON",
     "A configuration holds exactly the keys given to it, each with the value assigned last; reading "
     "it back in any type it can represent gives the same value, including every digit of a "
     "floating-point number. Saving to JSON and loading gives an equal configuration for every key "
     "and value, copying and merging never alter another configuration, two configurations are equal "
     "exactly when they hold the same keys and values, and reading a key that is absent or not "
     "convertible is refused.",
     ["histories", "inputs"],
     "all sequences of assignments, merges, copies, lookups, saves and loads over arbitrary keys and "
     "values",
     "The existing test stores a handful of short literals and saves one of them.",
     [P + "ConfParser.cpp", P + "ConfParser.hpp"],
     [("string map", P + "ConfParser.hpp"), ("JSON conversion through a property tree",
                                            P + "ConfParser.cpp")])

prop("C06", "A one-atom basis contains exactly the states the restrictions allow",
     "The one-atom basis built for an atom contains every state of the species whose quantum numbers "
     "are physical (l below n, j within the spin of l, m within j) and within the configured "
     "distances of the start state, with a negative distance meaning no restriction, and contains "
     "no other and none twice, whether built for one atom or for both atoms at once. Every state has "
     "its own number in 0..N-1, and after removing states "
     "the survivors keep their order and are renumbered 0..M-1 in that order.",
     ["inputs", "configurations"],
     "all start states and all combinations of restriction settings, and all sets of states to "
     "remove",
     "No existing test builds such a basis; the guarantee is about every combination of settings.",
     [P + "Basisnames.cpp", P + "Basisnames.hpp"],
     [("nested loops over the quantum numbers", P + "Basisnames.cpp: build"),
      ("re-indexing", P + "Basisnames.cpp: removeUnnecessaryStates")])

prop("C07", "Pair-state numbers and their one-atom parts always agree",
     "Each state of a pair basis made from two one-atom bases combines one state of each, every "
     "combination occurs exactly once, and its index identifies "
     "the two constituents. Removing states keeps the remaining ones in order, numbered without "
     "gaps and still tied to the same constituents, however often it is repeated.",
     ["inputs", "histories"],
     "all pairs of one-atom bases and all sequences of removals",
     "No existing test builds a pair basis.",
     [P + "Basisnames.cpp", P + "Basisnames.hpp"],
     [("combined index of the two constituents", P + "Basisnames.cpp: BasisnamesTwo::build")])

prop("C08", "Comparing, hashing and matching of states is consistent",
     "Two one- or two-atom states are equal exactly when species and all quantum numbers agree, "
     "equal states have equal hashes, and the order relation is a strict total order that agrees "
     "with equality. Wildcard matching accepts exactly the states that agree in every field that is "
     "not a wildcard, and a state built from a label or from numbers reports back the same species, "
     "element, spin and quantum numbers.",
     ["inputs"],
     "all pairs and triples of states, including wildcards and labels",
     "No existing test compares more than a few states.",
     [P + "State.cpp", P + "State.hpp", P + "StateOld.cpp", P + "StateOld.hpp"],
     [("comparison operators and hash", P + "State.cpp")])

prop("C09", "Hamiltonian-matrix arithmetic acts on entries and basis consistently",
     "Sums, differences, scaling, conjugation/transposition, restriction to a set of basis vectors, "
     "change of basis and removal of states act on a Hamiltonian matrix as the corresponding exact "
     "matrix operation on all entries, and leave the operands unchanged. Whatever the order in which "
     "a matrix was filled, compressed and read, reading gives the entries written so far.",
     ["histories", "inputs"],
     "all sequences of matrix operations over integer matrices of any shape",
     "No existing test touches this class.",
     [P + "Hamiltonianmatrix.cpp", P + "Hamiltonianmatrix.hpp"],
     [("sparse entries plus basis", P + "Hamiltonianmatrix.cpp")])

prop("C10", "A stored matrix is read back exactly or refused",
     "A Hamiltonian matrix written to a file is read back with exactly the same entries and basis, "
     "real or complex, by the program itself and, in both byte layouts of the indices, by the "
     "graphical interface. A file that is missing, cut off, of the other number type or no longer "
     "of the right form is refused, and a refused load changes neither the matrix nor what is "
     "stored from it next.",
     ["inputs", "fault_sequences"],
     "all matrices, all truncations of the file and all single-byte alterations of its form",
     "No existing test writes a matrix.",
     [P + "Hamiltonianmatrix.cpp", P + "Serializable.hpp", G + "loader.py"],
     [("typed items", P + "Serializable.hpp"), ("format flags", P + "Hamiltonianmatrix.cpp")])

prop("C11", "The pair Hamiltonian is the Kronecker sum restricted to its symmetry sector",
     "Combining two one-atom Hamiltonians gives exactly the pair energies E1+E2 of the allowed "
     "pairs, dropping precisely the pairs outside the energy window, and the corresponding product "
     "basis. For each inversion, reflection and permutation sector the produced basis is orthonormal, "
     "contains only vectors of that symmetry, and the sectors together span the whole space exactly "
     "once.",
     ["inputs", "configurations"],
     "all pairs of one-atom Hamiltonians, energy windows and symmetry sectors",
     "No existing test combines Hamiltonians.",
     [P + "Hamiltonianmatrix.cpp", P + "Symmetry.hpp", P + "Symmetry.cpp"],
     [("combine and symmetrise", P + "Hamiltonianmatrix.cpp")])

prop("C12", "A system's answers do not depend on when it was asked before",
     "The basis, Hamiltonian, overlaps and counts a system reports are determined by the settings "
     "made and the restrictions and additions applied, not by which of them were queried in between: "
     "asking earlier, later or repeatedly gives the same answer. Changing a parameter after a query "
     "takes full effect, and changes that are only legal before the basis exists are refused "
     "afterwards, leaving the system unchanged.",
     ["histories"],
     "all sequences of settings, queries, restrictions and additions",
     "The existing tests of systems (which do not run in this build) use one fixed order.",
     [P + "SystemBase.cpp", P + "SystemBase.hpp"],
     [("lazy construction flags", P + "SystemBase.cpp")])

prop("C13", "Editing a system keeps states, vectors and matrices aligned",
     "Restricting the states, restricting or constraining the basis vectors, adding two systems, "
     "removing unneeded states and forgetting states keeps the list of states, the coefficient "
     "matrix and the Hamiltonian aligned: every coefficient and energy stays attached to the state "
     "and vector it belonged to. What is dropped is exactly what was asked for, in every order of "
     "the operations, and matrix entries read and set between two states act on exactly these states.",
     ["histories", "inputs"],
     "all sequences of editing operations on systems with arbitrary states and coefficients",
     "No test that runs here edits a system.",
     [P + "SystemBase.cpp", P + "SystemBase.hpp"],
     [("index maps applied to states, coefficients and Hamiltonian", P + "SystemBase.cpp")])

prop("C14", "A one-atom system depends only on its final field settings",
     "The Hamiltonian of a one-atom system depends only on the electric and magnetic field, the "
     "diamagnetic switch and the ion's charge, order and distance that were set last, not on earlier "
     "settings or on queries in between. It is Hermitian and equals the field-free energies plus "
     "interaction terms that scale with the field components (linearly, or quadratically for the "
     "diamagnetic term).",
     ["histories", "configurations"],
     "all sequences of field, ion and diamagnetism settings interleaved with queries",
     "The one-atom tests cannot run in this build and set each field once.",
     [P + "SystemOne.cpp", P + "SystemOne.hpp"],
     [("lazily computed operators kept per component", P + "SystemOne.cpp: initializeInteraction")])

prop("C15", "A one-atom system contains exactly the requested states and symmetry",
     "The states of a one-atom system are exactly the physical ones inside the requested ranges of "
     "n, l, j, m and energy together with those the user lists. With conserved momentum or "
     "reflection symmetry the basis is orthonormal and spans exactly the part of the space with that "
     "symmetry; impossible requests are refused.",
     ["inputs", "configurations"],
     "all restrictions, user-chosen states and symmetry requests",
     "The one-atom tests cannot run in this build and use one restriction set.",
     [P + "SystemOne.cpp", P + "SystemBase.cpp"],
     [("basis construction", P + "SystemOne.cpp: initializeBasis")])

prop("C16", "A two-atom system depends only on its final geometry",
     "The interaction Hamiltonian of a two-atom system depends only on the distance vector, order, "
     "Green-tensor switch and surface distance in force when it is read, not on how they were "
     "reached or on queries in between. It is Hermitian, and setting distance and angle separately "
     "is the same as setting the vector.",
     ["histories", "configurations"],
     "all sequences of geometry settings interleaved with queries",
     "The two-atom tests cannot run in this build and set each geometry once.",
     [P + "SystemTwo.cpp", P + "SystemTwo.hpp"],
     [("cached interaction matrices invalidated by geometry changes", P + "SystemTwo.cpp")])

prop("C17", "A two-atom system's basis is the symmetric part of the product space",
     "The basis of a two-atom system consists of products of the one-atom basis vectors inside the "
     "energy and user restrictions, each once. With permutation, inversion, reflection (of mirror-symmetric one-atom "
     "vectors) or rotation symmetry requested it is orthonormal, has that symmetry, and the sectors together have "
     "exactly as many vectors as the unrestricted system.",
     ["inputs", "configurations"],
     "all one-atom bases and all combinations of symmetry requests",
     "The two-atom tests cannot run in this build and use two or three fixed sectors.",
     [P + "SystemTwo.cpp"],
     [("symmetrised combination", P + "SystemTwo.cpp: initializeBasis, addBasisvectors")])

prop("C18", "The Green tensor is that of the geometry set last",
     "The dipole-dipole and dipole-quadrupole Green tensor read from an object are those of the "
     "positions and surface set last, whatever was set or read before, and agree with the closed "
     "formula for free space and for the image charge of a surface. Impossible geometries are "
     "refused.",
     ["histories", "inputs"],
     "all sequences of geometry changes, surface additions and reads",
     "No existing test covers the Green tensor in this build.",
     [P + "GreenTensor.cpp", P + "GreenTensor.hpp"],
     [("calculated flags", P + "GreenTensor.cpp")])

prop("C19", "A stored matrix element never depends on how it came into the store",
     "A matrix element asked from the store has the same value whether it is computed now, was "
     "computed together with others, was computed by another process sharing the same directory, or "
     "is read again after a restart, a failed request or a kill at any moment. Changing the method "
     "or defect database never lets values of the other one through.",
     ["histories", "crash_points", "schedules"],
     "all sequences of precalculations, lookups, setting changes, failed requests, restarts and "
     "kills",
     "The store's test cannot run in this build and compares two values.",
     [P + "MatrixElementCache.cpp", P + "MatrixElementCache.hpp"],
     [("in-memory maps, database tables and key construction", P + "MatrixElementCache.cpp")])

prop("C20", "Matrix elements vanish exactly where selection rules forbid them",
     "An electric, magnetic or diamagnetic matrix element between two states of an atom is zero "
     "unless the angular-momentum selection rules for its rank allow it, the selection functions "
     "select every element that is not zero (for the one component that the projections fix) and "
     "none that is forbidden, the elements of a pair of states and of the reversed pair are those "
     "of a Hermitian tensor operator, and in units of the radial integral each element has the "
     "value angular-momentum theory gives it, for both implementations of the elements.",
     ["inputs"],
     "all pairs of states, ranks and components",
     "No running test enumerates pairs of states.",
     [P + "MatrixElementCache.cpp", P + "MatrixElements.cpp", P + "State.cpp"],
     [("selection rules", P + "MatrixElementCache.cpp: selectionRules*")])

prop("C21", "A calculation gives the same result with a warm, cold or damaged result cache",
     "The matrices a calculation delivers for a configuration are the same whether its cache is "
     "empty, holds results of earlier calculations (of the same or any other configuration), or was "
     "left behind by a run that was killed at any moment, and do not depend on the number of "
     "threads, and of other calculations running on the same cache at the same time. Cached files "
     "that are missing, cut short or unreadable are recomputed, never used.",
     ["histories", "crash_points", "configurations"],
     "all sequences of calculations sharing a cache directory, with kills and damage in between",
     "The tests of the engine cannot run in this build and always start with an empty cache.",
     [P + "HamiltonianOne.cpp", P + "HamiltonianTwo.cpp", P + "Interface.cpp"],
     [("parameters table and uuid-named files", P + "HamiltonianOne.cpp")])

prop("C22", "The calculation engine reports its progress in a well-formed order",
     "For every configuration the engine announces type, basis, states, total number, each matrix "
     "once and the end, in that order and with consistent counts and dimensions, and every announced "
     "file exists and loads. Invalid command lines and configurations that cannot be calculated (unequal "
     "atoms in a common basis, complex fields with real matrices, no steps for a varying field or "
     "distance, a basis without the mirror images that reflection needs) end with a usage or error message and a failure status, never with a silent or "
     "partial success.",
     ["inputs", "configurations"],
     "all command lines and configurations",
     "The command line and the protocol are not tested.",
     [P + "main.cpp", P + "Interface.cpp", P + "HamiltonianOne.cpp", P + "HamiltonianTwo.cpp"],
     [("option parsing", P + "main.cpp"), ("progress lines", P + "Interface.cpp")])

prop("C23", "The graphical interface's protocol reader matches what the engine says",
     "For every sequence of lines the engine may print, the reader of the graphical interface "
     "reports the same matrices, dimensions, state files, messages and end of run that were "
     "announced, each attached to the right part of the calculation. Lines that are not part of "
     "the protocol change nothing.",
     ["histories", "inputs"],
     "all sequences of protocol lines interleaved with other output",
     "No test runs the reader.",
     [G + "worker.py"],
     [("line parser", G + "worker.py: AllQueues.processOneLine")])

prop("C24", "Rotating states and systems follows the rotation group",
     "The Wigner rotation elements have their exact values, for small and for large momenta: they are "
     "unitary, compose like rotations, and a full turn is +1 or -1 for integer or half-integer j. "
     "Rotating a system of one or two atoms multiplies its basis vectors by the rotation given by the "
     "Euler angles or by the new z and y axes, leaves the Hamiltonian as it is, and can be undone; the "
     "overlap with rotated states uses the same rotation. Rotating the fields or the interatomic axis "
     "into new coordinates instead gives the rotated Hamiltonian. Axes that are not orthogonal and, "
     "for real numbers, outer angles that are no full turns are refused and a refused request changes "
     "nothing; all others are accepted.",
     ["inputs", "histories"],
     "all angular momenta, angles and axes, and all sequences of rotations and changes of fields",
     "The rotation test cannot run in this build and uses one angle.",
     [P + "WignerD.cpp", P + "SystemBase.cpp", P + "SystemOne.cpp"],
     [("rotation elements", P + "WignerD.cpp")])

prop("C25", "Perturbative coefficients are those of second-order perturbation theory",
     "For every pair of states, every set of pairs, every angle between the interatomic axis and the "
     "quantization axis and every range of n: C3 is the dipole-dipole interaction between two different "
     "pairs, C6 of a pair is the sum over every pair that a dipole reaches from both atoms (l one apart "
     "and below n, every j that the spin allows, every m) of the squared interaction divided by the "
     "energy difference, and the matrix of C6 couples the pairs of a set by way of all pairs outside of "
     "it, symmetrically and also where l differs by two. Energies are the sums of the level energies.",
     ["inputs"],
     "all pairs of states and sets of them, species of spin 0, 1/2 and 1, axes and ranges of n",
     "The test of perturbation theory needs the Python module, which is not built here; it asks about "
     "one set of pairs of one spin-1/2 species.",
     [P + "PerturbativeInteraction.cpp"],
     [("coefficients", P + "PerturbativeInteraction.cpp")])

prop("C26", "The engine's matrices are the operator the configuration describes",
     "For every configuration and step, the matrix the calculation engine delivers for an atom has the "
     "eigenvalues and eigenvectors of the level energies (relative to the initial state) plus the "
     "interaction with the electric and magnetic field of that step, including both ranks of the "
     "diamagnetic term, in the basis it announces. A matrix of the pair is that of both atoms plus the "
     "multipole interaction at the distance of that step up to the order asked for, within the energy "
     "window, restricted to its block of inversion, permutation, reflection and rotation symmetry; no "
     "vector of the block is missing.",
     ["inputs", "configurations"],
     "all configurations, fields, distances, orders and blocks",
     "No test runs the engine; the integration test uses another part of the library with one pair of "
     "states and one field.",
     [P + "HamiltonianOne.cpp", P + "HamiltonianTwo.cpp", P + "Hamiltonianmatrix.cpp"],
     [("field interaction", P + "HamiltonianOne.cpp"), ("multipole interaction", P + "HamiltonianTwo.cpp")])

prop("C27", "The Python back end delivers each step's own result",
     "A calculation of the interface's Python back end announces its type, the number of results "
     "(steps times symmetry blocks), for every block that has states its basis, then every step of it "
     "once, in any order, and finally its end. The file announced for a step and block holds the result "
     "of the system with exactly the fields and distance of that step, the restrictions, initial states, "
     "numerical method, interaction order and diamagnetism of the parameters, and the symmetries of that "
     "block, with energies relative to those of the initial states - for every set of parameters, "
     "whichever process calculated it after which other steps, and whatever earlier calculations, "
     "finished or killed at any moment, have left in the same cache directory. The blocks are those of "
     "the chosen symmetries, and every total momentum that occurs has one.",
     ["inputs", "configurations", "histories", "schedules", "crash_points"],
     "all parameter sets, numbers of processes, orders of steps, earlier calculations on the same cache "
     "directory, and kill points within them",
     "No test of the stable suite runs the back end; the ones that exist compare one configuration with "
     "stored numbers.",
     [G2 + "pipy_thread.py", G2 + "pipy/atom.py", G2 + "pipy/config.py"],
     [("parameters to settings", G2 + "pipy_thread.py: params_to_settings"),
      ("results keyed by the hash of all parameters, the json file marks completeness", G2 + "pipy_thread.py: one_run"),
      ("update of an existing system", G2 + "pipy/atom.py: updateFromParams")])

prop("C28", "Atom objects of the Python back end are what configuration and updates say",
     "An atom object (one atom or a pair) made from a configuration, in any of the equivalent forms a "
     "configuration may have (nested or dotted keys, aliases, deltas or ranges, shared or separate "
     "atoms), builds exactly the systems it describes: species, states, restrictions, fields, "
     "diamagnetism, method, symmetries, initial pair states, distance, angle and order. After any "
     "history of updates, deletions, computations and copies it is what it was made plus its updates, no "
     "matter when its systems were built, its parameters give an equal object back, and no other object "
     "is touched. The energies, indices and overlaps it reports belong to the states asked for, and an "
     "update of anything but fields, distance, angle and symmetries is refused and changes nothing.",
     ["inputs", "configurations", "histories"],
     "all configurations in all their forms, and all histories of operations on several objects",
     "The stable suite does not run the back end.",
     [G2 + "pipy/atom.py", G2 + "pipy/config.py"],
     [("forms of a configuration", G2 + "pipy/config.py"),
      ("updateFromParams", G2 + "pipy/atom.py"), ("copies", G2 + "pipy/atom.py: __getstate__")])

prop("C29", "What the interface's plots are computed with is right",
     "An element of the rotation group asked from the interface's cache (any j, m, m' and angle) is that "
     "element with its sign, whatever was asked before, in whichever order elements related by symmetry "
     "were asked, and whatever earlier or parallel instances have stored in the same folder, have lost, or "
     "were storing when they were killed. Joining sparse matrices below or beside each other gives the "
     "joined matrix and leaves the second one as it was, and keeping the strongest entries of rows keeps "
     "exactly those. An image of numbers maps the lower limit to the lowest colour, the upper limit to the "
     "highest and everything between them in equal steps; if all numbers are equal, to the lowest.",
     ["inputs", "histories", "crash_points"],
     "all quantum numbers, angles, histories of instances on one folder and kill points; all small matrices and images",
     "No test of the stable suite runs Python.",
     [G2 + "utils.py"],
     [("Wigner d-matrix elements kept per angle", G2 + "utils.py: Wignerd"),
      ("csr_vappend, csc_happend, csr_keepmax, normscale, bytescale", G2 + "utils.py")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
