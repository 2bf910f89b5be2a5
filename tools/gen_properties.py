import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="deflect/beam2d.go";T2="deflect/truss2d.go";T3="deflect/truss3d.go";F="deflect/frame.go";SC="deflect/static_condensation.go"
S="deflect/linear_bvp_solver.go";R="deflect/solver_result.go";J="deflect/problem_from_json.go";E="deflect/eq_layout.go";I="deflect/inclined_support.go";PO="deflect/polynomial.go";CS="deflect/cross_sections.go";EL="deflect/element_loads.go";O="deflect/one_dim_element.go";G="deflect/geometry.go";CH="deflect/cholesky.go";D="deflect/deflect.go";X="integr/expectations_from_json.go";X2="integr/expectations.go"

p("C01","Element stiffness equals the exact linear-elastic stiffness in global axes",
"Assembling a truss or frame without hinges adds to the global matrix exactly the Euler-Bernoulli/bar stiffness of that element transformed to its orientation, for every orientation, length, material and cross section. The contribution is symmetric, resists no rigid-body motion, is added on top of what was there, and touches only the degrees of freedom of its own two nodes.",
["inputs"],"for all node coordinates with non-zero distance, all E, A, Iyy, all prior contents of the global matrix and all equation numberings",
"The integration models sample a few orientations (mostly axis-parallel or one fixed angle); a sign or factor error that vanishes for those angles, or an entry that overwrites instead of adding, stays unseen.",
[B,T2,T3,F,G],[("Assemble of beam2d","deflect/beam2d.go:(*beam2d).Assemble"),("Assemble of truss2d","deflect/truss2d.go:(*truss2d).Assemble"),("Assemble of truss3d","deflect/truss3d.go:(*truss3d).Assemble"),("direction cosines","deflect/geometry.go:sineCosine2d")],obs=["Element.Assemble"])
p("C02","Hinges release exactly the hinged components, or are rejected",
"For every combination of axial, transverse and rotational hinges an element accepts, its assembled stiffness and load vector are the exact static condensation of the hinge-free element: the hinged force/moment is zero for every displacement state and every element load. A combination of these that the element type cannot condense is rejected with an error when the element is created, never silently ignored or only partly applied.",
["inputs","configurations"],"for all subsets of the local degrees of freedom of each element type, all element loads, all stiffness parameters and nodal displacements",
"The tests exercise a handful of hinge positions with particular loads; nine separate hand-generated formula sets with about 100 entries exist, and most entry/load combinations are never reached.",
[SC,B,T2,T3,F],[("condensation formulas","deflect/static_condensation.go"),("hinge selection","deflect/static_condensation.go:newStaticHingeCondenser")],obs=["Element.Assemble","Element.Interpolate","NewFrame2d","NewTruss2d","NewTruss3d"])
p("C03","Element loads act as work-equivalent nodal loads and superpose",
"The nodal load vector an element contributes equals the work-equivalent loads of the sum of all its element loads, in global axes, for every load type, direction, position and magnitude, on top of the existing load vector. Loads never influence the stiffness contribution, and the nodal values keep force and moment equilibrium with the applied load.",
["inputs","histories"],"for all load kinds, values, positions within the element, orientations, and sequences of added loads (including the same load twice)",
"Tests check single loads with one position and value in mostly horizontal elements; superposition of mixed types and arbitrary positions are not covered.",
[B,T2,T3,F,EL],[("beam load vector","deflect/beam2d.go:(*beam2d).localNoHingeLoads"),("truss load vector","deflect/truss2d.go:(*truss2d).localNoHingeLoads")],obs=["Element.Assemble"])
p("C04","Interpolated internal forces are in exact equilibrium with the element loads",
"The interpolated normal force, shear force and bending moment of an element satisfy the equilibrium equations along its whole axis: dN/dx=-q, dV/dx=-q, dM/dx=V, with jumps exactly at concentrated loads, and their end values agree with the element's own nodal forces for the same displacements. Hinged components vanish at the hinge.",
["inputs","configurations"],"for all nodal displacements, orientations, hinge combinations, and sets of element loads",
"Tests compare a few numbers of a few models at tolerance 1e-8 at the boundaries; equilibrium between samples and for other load/hinge combinations is not checked.",
[B,T2,T3,F,PO],[("moment interpolation","deflect/beam2d.go:(*beam2d).InterpolateMy"),("normal force interpolation","deflect/truss2d.go:(*truss2d).InterpolateNx")],obs=["Element.Interpolate"])
p("C05","Interpolated displacements are compatible with nodal values and material law",
"Interpolated axial displacement, deflection and rotation take the nodal values at non-hinged ends of the element, are continuous along it, and obey du/dx=N/(EA), dw/dx=-phi, dphi/dx=M/(EI) piecewise. A quantity an element doesn't know yields no interpolation, and asking for one quantity never changes another.",
["inputs","configurations"],"for all nodal displacements, orientations, hinge combinations, sets of element loads and queried quantities",
"Tests query some quantities for some models; continuity over load positions and the end values at the far node are only sampled.",
[B,T2,T3,F,PO],[("deflection/rotation by integration","deflect/beam2d.go:(*beam2d).Interpolate"),("axial displacement","deflect/truss2d.go:(*truss2d).InterpolateNxOrUx")],obs=["Element.Interpolate"])
p("C06","Solving returns displacements and reactions that satisfy K·d = f + reactions",
"For every problem, the linear system handed to the equation solver is exactly the free-free block of the assembled system with the load vector corrected for all prescribed displacements; the returned displacements take the prescribed values at constrained degrees of freedom and the equation solver's answer elsewhere. The reported reactions are exactly K·d minus the applied loads at constrained degrees of freedom, and zero at free ones.",
["inputs"],"for all assembled matrices, nodal loads, prescribed values (zero or not), sizes of the partitions and equation solvers",
"Tests solve some 100 fixed models; mixed zero/non-zero prescribed values, loads on supported degrees of freedom and the coupling of both are only sampled.",
[S,R],[("partitioned solve","deflect/linear_bvp_solver.go:(*linearSolver).Solve"),("partition set-up","deflect/linear_bvp_solver.go:formMatrices")],obs=["ProblemSolver.Solve","ProblemResult","EquationSolver.SolveLinearSystem"])
p("C07","Inclined supports constrain exactly the normal direction",
"An inclined support whose degrees of freedom are not prescribed otherwise makes the displacement component normal to the given direction zero, leaves the tangential component free of reactions, and reports reactions and displacements in global axes again; the transformation of the system is an exact congruence. Any number of inclined supports, also ones that share a degree of freedom, are undone completely after solving, and the same support object works for systems of different size.",
["inputs","histories"],"for all angles, pairs of distinct degrees of freedom, system sizes, other contents of the system, and sequences of solves",
"The unit test uses one fixed 30x30 matrix and four angles with one support; combinations of supports and re-use are not exercised.",
[I,S],[("system transformation","deflect/inclined_support.go"),("pre/post application","deflect/linear_bvp_solver.go:(*linearSolver).Solve")],obs=["Transformer.Pre","Transformer.Post","ProblemSolver.Solve"])
p("C08","Equation numbering is a bijection with constrained unknowns first",
"Every degree of freedom used by an element gets exactly one equation number, numbers have no gaps, and all prescribed ones precede all free ones, regardless of the order in which elements and supports are given. Duplicate prescribed degrees of freedom and prescribed degrees of freedom that no element uses are reported as an error.",
["inputs","schedules"],"for all sets of elements and prescribed values and all iteration orders of hash maps",
"Tests check a few index sets of at most four entries; map iteration order is random and only sampled.",
[E],[("index map creation","deflect/eq_layout.go:createIndexMap"),("ordering","deflect/eq_layout.go:freeAndConstraintsToIndices")],obs=["NewEqLayout","ProblemSolver.Solve","ProblemResult.PrimaryAll"])
p("C09","References to unknown degrees of freedom always surface as an error",
"Whenever an element, load, support or query refers to a degree of freedom that is not part of the system of equations, solving or the query returns a non-nil error. No displacement, reaction or interpolation is ever reported without an error for a wrongly mapped degree of freedom, and a failed query does not affect later valid ones.",
["inputs","histories"],"for all problems, layouts and queried indices; any origin of the unknown reference (element, nodal load, prescribed value, inclined support, result query)",
"Tests cover direct lookups and one nodal load; references inside elements and inclined supports pass the layout by value and were never tested.",
[E,S,R,I],[("failure recording","deflect/eq_layout.go:(*EqLayout).saveFailure"),("failure check","deflect/linear_bvp_solver.go:(*linearSolver).Solve")],obs=["ProblemSolver.Solve","ProblemResult.Primary","ProblemResult.Reaction","ProblemResult.Interpolate"])
p("C10","A JSON model becomes exactly the described mesh",
"Every node, element, material, cross section and hinge of a valid JSON document appears exactly once in the resulting problem with exactly the stated coordinates, connectivity, kind, parameters and hinge degrees of freedom, and nothing else does. An omitted material or cross section reference resolves only if there is exactly one candidate, and element end nodes are in the stated order.",
["inputs"],"for all valid documents, names and numbers",
"Tests parse fixed documents; swapped parameters or degrees of freedom that are equal, zero or unused in those models go unnoticed.",
[J,CS],[("translation of mesh descriptions","deflect/problem_from_json.go")],obs=["ProblemFromJSON"])
p("C11","A JSON model's supports and loads become exactly the described conditions",
"Every prescribed displacement, nodal load, element load and inclined support of a valid JSON document is applied exactly once, to exactly the named node or element, degree of freedom/direction, position and value; nothing else is applied. Names map one-to-one: Ux/Fx/qx to the x-direction, Uz/Fz/qz to z, Uy/Fy/qy to y, and Phi*/M*/m* to the rotations accordingly.",
["inputs"],"for all valid documents, names and numbers, any number of conditions per node/element and any map iteration order",
"Tests cover the planar names in particular models; the remaining names, several conditions per object and mixtures are not covered.",
[J,EL],[("translation of boundary conditions","deflect/problem_from_json.go")],obs=["ProblemFromJSON","Problem.Dirichlet","Problem.Neumann","Problem.EqTransforms"])
p("C12","Invalid JSON models are rejected, never silently altered",
"A document with an unknown element/cross section/load kind, unknown degree of freedom or hinge name, missing parameter, wrong number of values, positions or coordinates, dangling or ambiguous node, element, material or cross section reference, unsupported load, non-positive section, zero-length element, or without nodes, elements or supports is rejected with a non-nil error while it is parsed or, for conditions on degrees of freedom that don't exist, when its unknowns are numbered or it is solved. No such part is dropped while the rest is returned as a success.",
["inputs"],"for all documents with at least one such defect, wherever it is located and whatever else the document contains",
"Tests feed about 60 particular invalid documents with one defect each; other combinations (e.g. the defect in one of several entries) are untested.",
[J,CS,O,EL],[("validation during translation","deflect/problem_from_json.go")],obs=["ProblemFromJSON"])
p("C13","No document or problem makes the library panic",
"Parsing any document, numbering, solving and querying results of any problem built through the public constructors from non-nil arguments returns values or errors; it never panics, in particular not by out-of-range accesses, nil dereferences or mismatching matrix shapes. Invalid and degenerate input (no supports, everything supported, singular systems, unknown indices) ends in an error.",
["inputs","configurations","fault_sequences"],"for all documents, problems, equation solver failures and queries",
"Each test case is one input; a panic needs a specific shape (empty list, missing reference, size change) that nobody wrote down.",
[J,S,R,CH,PO,E],[("argument checks","deflect/linear_bvp_solver.go:(*linearSolver).initialise"),("panic conversion","deflect/cholesky.go")],obs=["ProblemFromJSON","NewEqLayout","ProblemSolver.Solve","ProblemResult"])
p("C14","Adding and removing element loads is exact for every element type",
"An element accepts exactly the loads it can represent (trusses: axial; frames: axial and transverse, plus concentrated moments) located within its length, and reports all others as not applicable without side effects. Removing a load removes all its instances and nothing else, for every element type; afterwards the element behaves as if the load had never been added.",
["inputs","histories"],"for all sequences of adding and removing loads of any type, kind and position, on all element types",
"Only a single add/remove on a bare element and a rejected load type are tested; delegating element types and repeated loads are not.",
[O,B,T2,F,EL],[("load list","deflect/one_dim_element.go"),("delegation","deflect/frame.go")],obs=["Element.AddLoad","Element.RemoveLoad","Element.Assemble","Element.Interpolate"])
p("C15","Results and elements stay valid under repeated and interleaved use",
"Assembling, interpolating and querying do not modify the problem, its elements, loads, nodes or earlier results: repeating an operation gives the same answer in any order. Re-using one problem solver for further problems (of any size, also after a failed solve) gives the same result as a fresh one and never alters results it returned before.",
["histories"],"for all sequences of assemble/interpolate/solve/query operations on shared elements, solvers and results",
"Every test uses fresh objects and queries each result once.",
[S,R,B,T2,T3,F,PO],[("buffer re-use","deflect/linear_bvp_solver.go:formMatrices"),("result ownership","deflect/solver_result.go")],obs=["ProblemSolver.Solve","ProblemResult","Element.Assemble","Element.Interpolate"])
p("C16","Independent problems can be processed concurrently",
"The library keeps no mutable package-level state and starts no goroutines, so parsing and solving of problems that share no objects may run concurrently without data races or influence on each other's results. Solving with one equation layout never writes state that another solve with a copy of the layout observes.",
["schedules"],"for all interleavings of operations on disjoint problems and for copies of one equation layout",
"The race detector only sees schedules that happen; tests hardly run the library concurrently.",
["deflect/","integr/expectations_from_json.go"],[("absence of package-level mutable state","deflect/"),("layout isolation","deflect/linear_bvp_solver.go:(*linearSolver).Solve")],obs=["all exported functions"])
p("C17","Piecewise polynomials tile the element and evaluate exactly",
"An element interpolation consists of consecutive pieces that start at 0, end at the element length and neither overlap nor leave gaps; evaluating a polynomial with at least one coefficient inside its piece is the exact polynomial value, outside of it an error, and interval lookup finds exactly the piece with matching bounds. Trimming drops exactly the trailing coefficients within the zero tolerance and turns a constant term within it into zero; merging joins exactly runs of adjacent pieces with coefficients that are equal within the tolerance; neither changes anything else nor loses a piece of the domain.",
["inputs"],"for all polynomial pieces with coefficients, evaluation points, tolerances and load positions",
"Tests evaluate a few polynomials; bounds checks at the far end, merging of more than two pieces and other degrees are untested.",
[PO],[("polynomial operations","deflect/polynomial.go")],obs=["PolyPiece.Eval","PolyPiece.Degree","PolySequence.IntervalIndex","PolySequence.CompactIdentical","PolySequence.TrimTrailingZeros","Element.Interpolate"])
p("C18","Cross sections follow the documented formulas; invalid ones are rejected",
"A rectangular section reports A=bh, Iyy=bh³/12, Izz=hb³/12, the documented torsion constant independent of which side is longer, and its roll angle; a constants-based one reports exactly the given values. Non-positive mandatory or negative optional parameters, or missing ones, are reported as an error.",
["inputs"],"for all parameter values and all sets of given parameters",
"Tests use one or two sections; square or flat sections, swapped axes and negative optional values are sampled at best.",
[CS],[("cross section constructors","deflect/cross_sections.go")],obs=["NewRectangularCrossSection","NewConstantsCrossSections","CrossSection"])
p("C19","A failing equation solver is always reported, never turned into a result",
"If the coefficient matrix cannot be factorised or the system cannot be solved, for whatever reason including a failure inside the linear algebra library, the Cholesky solver returns a non-nil error; on success it has solved exactly the given system. Solving a boundary value problem returns an error and no result whenever the equation solver returned an error.",
["inputs","fault_sequences"],"for all matrices and right-hand sides, and for every step of the factorisation and solution failing or panicking",
"Tests feed three small matrices; failures of the later steps cannot be provoked easily from outside.",
[CH,S],[("failure conversion","deflect/cholesky.go"),("error propagation","deflect/linear_bvp_solver.go:(*linearSolver).Solve")],obs=["EquationSolver.SolveLinearSystem","ProblemSolver.Solve"])
p("C20","All result queries agree with each other and with the solved system",
"The list of all displacements (reactions) contains every degree of freedom of the system exactly once with the same value a single query returns; the reported dimensions are the total and the unconstrained number of unknowns. The list of all interpolations contains, for every element (identifiers are unique) and every quantity that element knows, exactly the interpolation a single query returns, and a query for an unknown element is an error.",
["inputs","histories"],"for all problems, queried indices, elements, quantities and tolerances",
"Tests mostly query single values; completeness of the lists over all quantities and elements isn't checked.",
[R],[("result queries","deflect/solver_result.go")],obs=["ProblemResult"])
p("C21","Degenerate elements are rejected by every element constructor",
"Creating an element of any type with coincident end nodes or an empty identifier returns an error; otherwise it succeeds, and the element reports its identifier, two nodes, and exactly the degrees of freedom it writes to and reads from. The reported degrees of freedom are sufficient to solve a problem consisting of that element.",
["inputs"],"for all identifiers, node coordinates, materials and element types",
"Tests cover one zero-length case per constructor; agreement of reported and used degrees of freedom is never checked directly.",
[O,B,T2,T3,F],[("common construction","deflect/one_dim_element.go:newOneDimElement"),("index sets","deflect/beam2d.go:(*beam2d).indicesAsArray")],obs=["NewTruss2d","NewTruss3d","NewFrame2d","NewFrame3d","Element.ID","Element.Indices","Element.NumNodes"])
p("C22","Results do not depend on hash map iteration order",
"The same document always yields the same problem up to the order of its lists, the same numbering of unknowns and the same values for every result query; no numerical value, error/success decision or assignment of values to unknowns depends on the iteration order of hash maps.",
["schedules","inputs"],"for all documents and all iteration orders of every map involved",
"Go randomises map iteration per run; tests see a few random orders of small maps and cannot tell when an order-dependent outcome would differ.",
[J,E],[("sorting of indices","deflect/eq_layout.go:freeAndConstraintsToIndices"),("map translation loops","deflect/problem_from_json.go")],obs=["ProblemFromJSON","NewEqLayout"])
p("C23","Names of degrees of freedom and quantities are complete and unambiguous",
"Every degree of freedom and every interpolation quantity has a distinct textual name identical to its documented identifier, every documented name can be used in documents, and values outside the defined range are printed as such instead of causing a failure.",
["inputs"],"for all values of the enumerations, defined or not",
"The unit test compares a few names; a newly added or re-ordered enumerator silently shifts names or is missing in name tables.",
["deflect/deflect.go","deflect/dof_string.go","deflect/fct_string.go",J,X],[("name tables","deflect/dof_string.go"),("name tables of quantities","deflect/fct_string.go")],obs=["Dof.String","Fct.String","ProblemFromJSON","ExpectationsFromJSON"])
p("C24","Stated test expectations are all evaluated, and evaluated as stated",
"Every expectation of a test document (failure, displacement, reaction, interpolation, with its tolerance) becomes an assertion that reports an error whenever the actual value is missing or deviates from the stated one by more than the stated tolerance, absolutely as well as relatively, and none when they agree; unknown names, malformed ranges, samples or patterns are errors. No stated expectation is dropped or compared against another quantity.",
["inputs"],"for all expectation documents and all results",
"The expectation code is what the tests trust; nothing tests that a wrong result makes it fail.",
[X,X2],[("expectation parsing","integr/expectations_from_json.go"),("assertions","integr/expectations.go")],obs=["ExpectationsFromJSON","Expectation"])
p("C25","No error is dropped inside the library",
"Every error value produced by a call inside the library reaches the caller's error result, is turned into another error, or is reported; it is never discarded, overwritten before being looked at, or ignored in favour of the accompanying value.",
["programs","inputs","fault_sequences"],"for every call site whose callee can return an error, on every path",
"A dropped error only shows when that particular call fails while nothing else does.",
["deflect/","integr/"],[("errors.Join accumulation","deflect/problem_from_json.go"),("error returns","deflect/")],obs=["all functions returning error"])
p("C28","Computed structures are in equilibrium and fit together",
"At every node of a solved model, the section forces at the ends of all elements meeting there, the nodal loads and the reactions sum up to zero in every direction, and the loads and reactions of the whole model neither push nor turn it, provided that the equation solver has solved its system. At every end without a hinge, interpolated displacements and rotation of an element are those of its node.",
["inputs"],"for all models over the element types, and all geometries, parameters, loads, settlements and inclined supports",
"Tests compare particular numbers of particular models; errors that cancel there, or arise only when features (hinges, settlements, inclined supports, parallel or reversed elements) meet at one node, stay unnoticed.",
[S,R,E,J,B,T2,T3,F],[("assembly, solution and reactions","deflect/linear_bvp_solver.go:(*linearSolver).Solve"),("section forces","deflect/beam2d.go")],obs=["ProblemFromJSON","ProblemSolver.Solve","ProblemResult"])
p("C29","Results depend on nothing but the arguments",
"Whatever the library returns is a function of what it is given: it starts no goroutines and reads no clock, random numbers, environment variables, command line, files, network, number of processors or addresses, nor package-level state left behind by earlier calls. The same document, problem or query yields the same answer in every process, on every machine, at any time.",
["inputs","schedules","histories","configurations"],"for all calls, environments, machines, moments and histories of other calls in the process",
"A test runs in one environment; an answer that depends on a variable, the load of the machine, the number of processors or what was computed before in the process looks right there.",
["deflect/","integr/"],[("all functions and package initialisers","deflect/"),("assertions on results","integr/")],obs=["all exported functions"])
p("C30","Every call comes to an end",
"No call of the library runs or waits forever, whatever it is given: every loop is bounded by the sizes of its input or gets closer to its end in every round, also for values that are not a number, infinite or subject to rounding; no function calls itself without end, and no lock stays held or is taken twice.",
["inputs","histories"],"for all calls with any arguments, and all histories of earlier calls, also failed ones, on the same objects",
"A test that ends shows that one input ends; the input for which a loop stands still (not a number, a bound that is jumped over, the call after a failed one) is not among them.",
["deflect/","integr/"],[("all loops","deflect/polynomial.go"),("load removal","deflect/one_dim_element.go:(*oneDimElement).RemoveLoad"),("solver","deflect/linear_bvp_solver.go")],obs=["all exported functions"])
p("C26","Computed values are accurate to rounding for all well-conditioned models",
"For every well-conditioned model, all displacements, reactions and interpolations agree with the exact solution up to a small multiple of the floating-point rounding unit times the condition number.",
["inputs"],"for all well-conditioned models",
"Tests compare with tolerance 1e-8 for particular models.",
[S,CH,B,T2,PO],[("floating-point evaluation","deflect/")],obs=["ProblemResult"])
p("C27","Kinematically unstable models are always reported as unsolvable",
"A model whose supports and hinges leave a mechanism is never solved successfully; solving returns an error.",
["inputs"],"for all models with a mechanism",
"Tests contain some unstable models; rounding may turn a singular matrix into a factorisable one.",
[CH,S],[("factorisation check","deflect/cholesky.go")],obs=["ProblemSolver.Solve"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch); 
    n=len([s for s in x["statement"].split(". ") if s.strip()])
    if n>3: print(x["id"],n)
print(len(P))
