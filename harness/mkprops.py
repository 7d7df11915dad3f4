"""Writes properties.jsonl (kept as a script so that the statements are easy to review)."""
import json
C="hyperstatic/core/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
p("C01","The model reads back exactly what was defined, under stable dense indices",
 "After any sequence of definitions, listing nodes, beams or shells returns each defined name exactly once in the order of first definition, and location, connectivity, length, nodal mass and restraint read back as last set. Indices of nodes, beams and shells are 0..n-1 in order of first definition, and redefining a name replaces its data (a node's mass returns to zero) but never its index or another object's data. A beam or shell keeps the node positions, section and material it was created with, and a point added with duplicate checking returns the index of the existing coincident node.",
 ["histories","inputs"],"every sequence of definition and redefinition calls, every name and coordinate",
 "The tests define each name once, in one order, in fixed small models; redefinition and interleaving are never exercised.",
 [C+"__init__.py",C+"fe_model/model.py",C+"fe_model/node.py",C+"fe_model/element/__init__.py"],
 [("index allocation","Model.add_node/add_beam/add_simple_beam/add_shell"),("read-back","Model.get_*"),("interface","Api.add_*/get_*")],
 [("nodes/beams/shells","named objects in definition order","Model"),("hid","dense index per kind","Model.__hid")],
 ["Api.get_*","Model.get_*"])
p("C02","Calls report success exactly when they took effect; failures change nothing",
 "Interface calls never raise: a call naming an undefined node, material, section, beam, load pattern or load case, a beam between coincident points, or an analysis that cannot be carried out (no assembly, unknown case, unstable structure) returns False or None, every other call returns True or the requested data (loads and case restraints may name nodes and beams that are defined later; a case with restraints on nodes never defined cannot be solved). A failed call leaves every definition, load, restraint, index and previously stored result exactly as it was.",
 ["histories","inputs"],"every interface call in every reachable state, with valid and invalid names",
 "Tests call the interface only with valid arguments and seldom look at the returned status; no test compares the state before and after a failure.",
 [C+"__init__.py",C+"fe_model/model.py",C+"fe_solver/static.py"],
 [("exception to status","Api methods"),("lookup before mutation","Model.add_*"),("singularity check","StaticSolver.solve_linear")],None,["Api.*"])
p("C03","Load patterns keep the last value set and a case is their weighted sum",
 "A pattern holds, per node and per beam, exactly the values last set for it (nodal load, nodal displacement, distributed and concentrated member load independently), independent of other patterns. A load case's load on any node or beam is the sum over its patterns of factor times pattern load (times the pattern's curve value at the requested step for time histories); adding a pattern again or setting its factor replaces its former factor, and loads set on a pattern after it joined a case count. The dictionary views (nodal loads, nodal displacements, member loads, time histories) and the assembled load vector agree with these values.",
 ["histories","inputs"],"every sequence of load and case definition calls and every factor, step and curve",
 "The tests add one or two patterns once with one load each; resetting, re-adding, several loads per object and dictionary views are not covered.",
 [C+"fe_model/load/__init__.py",C+"fe_model/load/loadcase.py",C+"fe_model/load/pattern.py",C+"fe_model/assembly.py"],
 [("pattern storage","LoadPattern.set_*"),("combination","LoadCase.get_nodal_f/get_beam_f/get_*_dict"),("assembly of loads","Assembly.assemble_f")],
 [("pattern","loads per node/beam","LoadPattern"),("case","patterns, factors, curves","LoadCase")],["LoadCase.get_*","Api.get_nodal_load","Assembly.assemble_f"])
p("C04","Member loads become their exact fixed-end equivalents",
 "For every beam length, every linearly varying distributed load (axial, two lateral directions, torsion) and every concentrated force or moment at any relative location from 0 to 1, alone or combined, the equivalent end forces and moments of a member are the exact fixed-end values of Euler-Bernoulli theory. In particular their resultant force and moment about each end equal those of the load, mirrored loads give mirrored values, and loads add up.",
 ["inputs"],"every load component, location and length, alone and in combination",
 "Tests compare a few load cases on one length against a reference program to 1 percent; most components and locations never occur.",
 [C+"fe_model/load/pattern.py"],[("equivalent end loads","LoadPattern.get_beam_f")],None,["LoadPattern.get_beam_f","LoadCase.get_beam_f"])
p("C05","Each case is solved under its own effective restraints",
 "A case without restraints of its own uses the model's restraints, and a case with any restraint setting of its own uses only those; the last setting per node wins, restrained components have exactly zero displacement and every other component is free to move into equilibrium. This holds for any set of restrained components on any nodes, independently for every case solved from the same assembly, and an insufficiently restrained (unstable) case is reported as failed.",
 ["configurations","histories"],"every combination of model and case restraints on any nodes and components, any order of setting",
 "Tests restrain whole supports through one of the two routes; overrides, partial restraints, several cases with different supports and instability are not covered.",
 [C+"fe_model/assembly.py",C+"fe_solver/static.py",C+"fe_model/load/__init__.py"],
 [("reduction","Assembly.assemble_boundary"),("expansion","StaticSolver.solve_linear, Assembly.restraintDOF")],None,["Api.result_get_nodal_displacement"])
p("C06","Static displacements are the exact equilibrium of the frame",
 "For every stable space frame of straight beams, whatever their number, length, orientation (including vertical and either direction), roll angle, section, material and kind (section-based or directly parametrised), the displacements reported for a static case are the unique solution of the equilibrium of linear Euler-Bernoulli beam theory under the case's nodal and member loads. The local axes are: 1 from start to end, 2 in the vertical plane through the beam pointing up (global X for vertical beams), 3 completing the right-handed set; I33 governs bending in the 1-2 plane and I22 in the 1-3 plane.",
 ["inputs","configurations"],"every frame geometry, connectivity, section and load",
 "Tests solve a handful of single beams and one frame, mostly axis-aligned along X, at 1 percent tolerance.",
 [C+"fe_model/element/line/__init__.py",C+"fe_model/element/line/beam.py",C+"fe_model/element/line/simple_beam.py",C+"fe_model/assembly.py",C+"fe_solver/static.py"],
 [("stiffness","integrate_K"),("axes","Line.__init__, Cartesian"),("assembly","Assembly.assemble_K/assemble_f"),("solution","StaticSolver.solve_linear")],None,["Api.result_get_nodal_displacement"])
p("C07","Reactions and member end forces are in equilibrium with the loads",
 "After a static case is solved, each member's end forces are its stiffness times its end displacements minus its fixed-end loads in its local axes, the end forces of the members at a node together balance the node's load and reaction, and the reported reaction equals exactly that balance at restrained components and zero at free ones. Hence all reactions balance all applied loads, member loads included, in force and moment.",
 ["inputs","configurations"],"every frame, load combination, restraint set and queried node or member",
 "No existing test reads a reaction; end forces are tested for one beam.",
 [C+"fe_post/beam.py",C+"fe_post/node.py",C+"fe_model/assembly.py"],[("end forces","BeamResultResolver.resolve_beam_end_force"),("reactions","NodeResultResolver.resolve_nodal_reaction")],None,["Api.result_get_nodal_reaction","Api.result_get_beam_end_force"])
p("C08","End releases transmit nothing and change nothing else",
 "For any set of released end components of a member that leaves it internally stable, the force or moment at each released component is zero in every case and at every load, member loads are redistributed accordingly, and the structure behaves as one with a frictionless joint at exactly those components. Setting releases replaces the former ones, affects only the named member, leaves the mass unchanged, and clearing them restores the unreleased behaviour.",
 ["inputs","configurations","histories"],"every subset of the twelve end components with which the member stays stable, with every member and nodal load",
 "Tests release one or two rotations on one beam; combinations on both ends, translations and torsion with member loads are not covered.",
 [C+"fe_model/element/line/beam.py",C+"fe_model/element/line/simple_beam.py",C+"fe_model/model.py",C+"fe_model/assembly.py"],
 [("condensation","static_condensate, static_condensate_f")],None,["Api.result_get_beam_end_force","Api.result_get_nodal_displacement"])
p("C09","Results superpose and do not depend on names or order of definition",
 "The result of a case is the factor-weighted sum of its patterns' results, so splitting, merging, scaling or negating loads among patterns and cases changes results only as linear combination demands. Results do not depend on the names chosen, on the order in which nodes, beams, restraints, loads and cases are defined or solved, nor on unrelated patterns and cases.",
 ["histories","configurations","inputs"],"every permutation of definitions, naming and distribution of loads over patterns and cases",
 "Each test defines one model in one order with one case and mostly one pattern of factor 1.",
 [C+"fe_model/model.py",C+"fe_model/load/__init__.py",C+"fe_model/assembly.py",C+"fe_solver/static.py"],
 [("linear combination","LoadCase.get_nodal_f/get_beam_f"),("index mapping","Model hid, Assembly")],None,["Api.result_get_*"])
p("C10","Results belong to the assembled snapshot and to their case alone",
 "Assembling freezes the model, loads and cases: whatever is defined, redefined or loaded afterwards, solving and result queries refer to the frozen state until it is assembled again, and then entirely to the new state. Solving one case never alters another case's results, solving a case again or querying results in any order and number gives the same values, and results survive in the work directory for a second interface object only through its files.",
 ["histories"],"every interleaving of definition, assembly, solution and query calls over several cases",
 "Tests run define-assemble-solve-query once, in that order.",
 [C+"__init__.py",C+"fe_model/assembly.py",C+"fe_solver/__init__.py",C+"fe_solver/static.py",C+"fe_post/__init__.py"],
 [("snapshot","Assembly.save, pickle"),("per-case result files","StaticSolver.solve_linear, ResultResolver.load_displacement")],
 [(".asb","frozen assembly","work directory"),("<case>.d.npy","displacements of a case","work directory")],["Api.solve_static","Api.result_get_*"])
p("C11","A saved project loads back equal; clearing the workspace removes results only",
 "An interface saved under a name and loaded later equals the saved one in everything it reads back and behaves identically from then on, independent of changes made to the original in between; saves under different names are independent and saving again overwrites. Loading what was never saved returns None. Clearing the workspace empties the work directory, and only it, so results and saves are gone while the definitions in memory are untouched and can be assembled and solved again.",
 ["histories"],"every interleaving of save, load, clear, definition and analysis calls, every file name",
 "No test saves, loads or clears.",
 [C+"__init__.py"],[("save/load","Api.save, Api.load"),("clear","Api.clear_workspace")],None,["Api.save","Api.load","Api.clear_workspace"])
p("C12","Member deformation interpolates the member's own end displacements exactly",
 "At every relative location from 0 to 1 the deformation reported for a member is, in its local axes, linear in the axial displacement and twist and the cubic Hermite interpolation of end deflections and slopes in both lateral directions, with the slopes reported equal to the derivatives of the deflections with respect to length; at the ends it equals the end displacements of the member (those of the node, except at released components, where they are the member's own). It holds for any node order, orientation, roll angle and case.",
 ["inputs"],"every location, member, orientation, release and displacement state",
 "Tests look at one component at one location of one beam.",
 [C+"fe_post/beam.py",C+"fe_model/element/line/beam.py",C+"fe_model/element/line/simple_beam.py"],
 [("interpolation","interpolate, interpolate1"),("resolution","BeamResultResolver.resolve_beam_deformation")],None,["Api.result_get_beam_deformation"])
p("C13","The mass matrix accounts for all nodal and member mass, once",
 "The assembled mass matrix is symmetric and has, for every node and direction, its assigned nodal mass plus half the mass (density times area times length) of each adjoining beam, whatever the beam's orientation, releases, restraints and order of definition; the optional consistent member mass is symmetric, carries exactly the member's total mass under rigid translation, and is the exact Hermite consistent matrix. Assigning nodal mass replaces the former value.",
 ["inputs","configurations"],"every frame, density, section, nodal mass and release",
 "Mass is only used through eigenvalues of two test beams.",
 [C+"fe_model/assembly.py",C+"fe_model/node.py",C+"fe_model/element/line/beam.py",C+"fe_model/element/line/simple_beam.py"],
 [("member mass","integrate_M"),("assembly","Assembly.assemble_M")],None,["Assembly.assemble_M","Model.get_beam_M"])
p("C14","Modal analysis returns the lowest true eigenpairs",
 "For a stable structure with positive mass on every free translation (and any mass on free rotations), a modal case returns exactly the requested number of modes (or all, if fewer exist), in ascending order, being the lowest eigenvalues of stiffness against mass with the case's effective restraints, each with a mode shape that satisfies the eigen equation and is zero at restrained components; the shapes are mass-orthonormal. The reported circular frequency, frequency and period are the square root of the eigenvalue, that over 2 pi, and its inverse.",
 ["inputs","configurations"],"every structure, mass distribution, restraint set and number of modes",
 "Tests compare the first few frequencies of two fixed beams.",
 [C+"fe_solver/dynamic.py",C+"fe_post/structure.py",C+"fe_post/__init__.py",C+"fe_model/assembly.py"],
 [("eigen solution","ModalSolver.solve_eigen"),("frequencies","StructureResultResolver.resolve_modal_frequency")],None,["Api.solve_modal","StructureResultResolver","NodeResultResolver"])
p("C15","Direct time integration follows the central difference recurrence",
 "A direct-integration time history starts from two states of zero displacement and its state at every step is the one the central difference scheme gives for the structure's stiffness, mass, Rayleigh damping of the given ratio at periods 2 s and 1 s, and the load of each pattern scaled by its factor and curve value at the previous step, for any number of components, patterns and steps. One state per load step beyond the initial one is stored, restrained components stay at zero.",
 ["inputs","histories"],"every structure with mass on its free components, step size, load curve and damping ratio",
 "The single existing test only checks that the solver runs.",
 [C+"fe_solver/dynamic.py",C+"fe_model/load/loadcase.py",C+"fe_model/load/__init__.py"],[("recurrence","TimeHistorySolver.solve_direct_time_integration"),("loads at a step","LoadCase.get_nodal_f/get_beam_f")],None,["TimeHistorySolver.solve","NodeResultResolver.resolve_nodal_displacement(step)"])
p("C16","Coordinate systems stay right-handed orthonormal and turn as specified",
 "A coordinate system built from three points, or from a normal and a guide vector, has unit, mutually perpendicular, right-handed axes with x through the second point (or z along the normal) and the third point on the positive y side, at any scale and position; collinear points or a guide parallel to the normal are refused. Any sequence of rotations about its own axes, global axes or an arbitrary vector, re-orientations and alignments keeps that, turns by the given angle in the right-hand sense about the stated axis, leaves the origin in place, and its transformation matrix has the axes as rows.",
 ["inputs","histories"],"every triple of points, guide, and sequence of rotations",
 "Tests check single rotations by a few angles.",
 ["hyperstatic/common/csys.py",C+"fe_model/node.py"],[("construction","Cartesian.__init__/create_by_normal/set_by_3pts"),("rotation","rotate_about_*")],None,["Cartesian.x/y/z/origin/transform_matrix","Node.transform_matrix"])
p("C17","Section catalogue and material constants follow from their dimensions",
 "For every admissible set of dimensions, area, second moments, section moduli, torsion constant, shear areas, radii of gyration and mass per length of rectangular, circular, pipe, box, I and general sections are those of their geometry (torsion: solid rectangles by Saint-Venant theory, I as the sum of its rectangles, box by Bredt, circular by the polar moment), with h along axis 2 and b along axis 3. The shear modulus and Lame constant follow from the elastic modulus and Poisson's ratio, a section takes its elastic constants and density from its material, and all of it scales with the unit of length.",
 ["inputs"],"every shape, dimension and material constant",
 "Tests check one set of dimensions per shape at 1 percent.",
 [C+"fe_model/section/beam_section.py",C+"fe_model/section/shell_section.py",C+"fe_model/material/isotropy.py"],[("shape formulas","BoxSection, PipeSection, ISection, CircleSection, RectangleSection"),("elastic constants","IsotropicMaterial")],None,["BeamSection.*","IsotropicMaterial.*"])
p("C18","Quadrilateral shells carry uniform strain and bending exactly, rigid motion free",
 "The stiffness of a plane convex quadrilateral shell is symmetric, never negative and free of force under rigid motion, whatever its position, size, orientation in space, sense and first corner; under constant membrane strain and constant curvature its corner forces are exactly those of the stresses and moments of its material and thickness, so that a mesh loaded accordingly is solved exactly. Membrane stiffness is proportional to modulus and thickness, bending stiffness to modulus and thickness cubed; membrane-only and plate-only shells resist only in-plane, respectively out-of-plane, components, and a full shell is their sum. A shell contributes to the structure exactly at its own nodes next to any beams, its area and normal are those of its corners in any orientation, and shells whose first three corners lie in a line or whose nodes or section are undefined are refused without effect.",
 ["inputs","configurations"],"every convex plane quadrilateral in space, section, mesh and node numbering",
 "Tests compare single entries for one square and one mesh; rigid motion, orientation, other shapes and assembly are not covered.",
 [C+"fe_model/element/quad/__init__.py",C+"fe_model/element/quad/DKGQ.py",C+"fe_model/meta/plates/metaDKQ/__init__.py",C+"fe_model/meta/membranes/GQ12/__init__.py",C+"fe_model/assembly.py"],[("stiffness","DKGQ.integrate_K"),("axes and area","Quad.__init__"),("assembly","Assembly.assemble_K")],None,["Model.get_shell_K","Assembly.assemble_K"])
p("C19","Triangular shells carry uniform bending exactly, independent of first corner",
 "The bending (out-of-plane) stiffness of a triangular shell is symmetric, resists every motion but the rigid ones, and does not depend on position, orientation in space, sense or first corner; under constant curvature its corner forces and moments are exactly those of the moments of its material and thickness, so that a mesh of triangles, alone or next to quadrilaterals and beams, loaded accordingly is solved exactly. It is proportional to the modulus and to the cube of thickness, uncoupled from motions in the plane, its in-plane forces under strain are those of the stresses, area and normal are those of the corners, and triangles whose corners lie in a line or whose nodes or section are undefined are refused without effect.",
 ["inputs","configurations"],"every triangle in space, section, mesh and node numbering","One mesh of triangles is compared at one node.",
 [C+"fe_model/element/tria/__init__.py",C+"fe_model/element/tria/DKT.py",C+"fe_model/meta/plates/metaDKT/__init__.py",C+"fe_model/meta/membranes/T9/__init__.py",C+"fe_model/assembly.py"],[("stiffness","DKT.integrate_K"),("axes and area","Tria.__init__"),("assembly","Assembly.assemble_K")],None,["Model.get_shell_K","Assembly.assemble_K"])
p("C20","The project database stores quantities in the unit they were given in",
 "Whatever unit is current, joints, frames, sections, materials and loads read back as they were entered, unit changes convert consistently, and saved projects open unchanged.",
 ["histories","inputs"],"every sequence of project calls and unit changes","Nothing in the application layer is tested.",
 ["hyperstatic/app/general/model.py","hyperstatic/app/general/db.py","hyperstatic/app/general/object/joint.py","hyperstatic/app/general/object/frame.py"],[("project object","hyperstatic/app/general/model.py")])
p("C21","Response-spectrum and modal superposition follow from the modes",
 "A response-spectrum case combines the spectral responses of the modes by the chosen rule, and modal superposition reproduces direct integration.",
 ["inputs"],"every structure and spectrum","Not tested.",[C+"fe_solver/dynamic.py"],[("solvers","ResponseSpectrumSolver, TimeHistorySolver.solve_modal_decomposition")])
p("C22","Design spectra and load curves take their stated values",
 "At every tabulated period, a GB 50011 design spectrum is the code of practice's function of peak, characteristic period and damping: linear from 0.45 of the peak at zero to the plateau at 0.1 s, level to the characteristic period, falling as its power gamma to five times that period, then linearly, with the damping corrections eta1 and eta2 and their lower limits. A load curve keeps the name and points it was given, sine and cosine curves have exactly the requested number of points, spaced dt from zero on A sin(w t + phi) and A cos(w t + phi), and nothing the caller does later to the lists given or arrays returned changes them.",
 ["inputs","histories"],"every peak, period, damping, tabulation step, amplitude, frequency, phase and number of points",
 "No test covers the spectra; curves occur in one test, which does not compare them.",
 ["hyperstatic/app/design/GB/seismic/spectrum.py","hyperstatic/app/seismic/wave2spec.py","hyperstatic/common/curve.py"],[("tabulated spectrum","GB50010"),("spectrum function","GB50011_spectrum"),("curves","Curve")],None,["GB50010.spectrum","GB50011_spectrum","Curve.x/y/to_array"])
with open("/verif/properties.jsonl","w",encoding="utf8") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    assert d["statement"].count(". ")<=2,(d["id"])
print(len(P))
