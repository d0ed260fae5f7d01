# The table behind properties.jsonl and MANIFEST.json.
C = 'hyperstatic/core/'
MC = 'stateless model checking: exhaustive bounded enumeration of %s on the real code, %s'
NOT_APPLICABLE = []
NOTES = ('Every check is ./check Pnn: it enumerates a finite space completely (cases), drives the real code of /repo through its public '
         'interface in forked workers, compares every execution with an independent reference model, re-executes failures, and writes '
         'evidence/Pnn.json. Known findings and repaired defects are in known_findings.txt. No hooks in /repo are needed.')
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level='model_checking', state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, level=level, state=state))


P('P01', 'Static displacements satisfy equilibrium of the modelled structure',
  'For every stable linear-elastic frame of straight members, supports and loads, a static solution reports for every node the unique '
  'displacements at which the elastic forces of all members balance the applied loads, whatever the member directions, lengths, '
  'section values, topology and number of nodes.',
  ['inputs', 'configurations'], 'every frame geometry, topology, support set, section and load',
  'Tests solve a handful of single beams along X; equilibrium must hold for every direction, connectivity and load component.',
  [C + 'fe_model/assembly.py', C + 'fe_solver/static.py', C + 'fe_model/element/line/simple_beam.py', C + 'fe_model/element/line/beam.py', C + 'fe_model/element/line/__init__.py'],
  [('member stiffness', C + 'fe_model/element/line/simple_beam.py integrate_K'), ('direct-stiffness assembly', C + 'fe_model/assembly.py assemble_K, assemble_f'), ('boundary reduction and back-substitution', C + 'fe_model/assembly.py assemble_boundary; fe_solver/static.py')],
  ['nodal displacement queries after solving'],
  MC % ('frame models (directions, graphs, supports, loads)', 'against an independent flexibility-based frame oracle'),
  'Bounded-exhaustive: every model of the families in the evidence rule is executed. Trusts numpy linear algebra and the oracle in lib/ref.py.')
P('P02', 'Load combinations superpose linearly',
  'The displacements, reactions and member end forces of a load case equal the factor-weighted sum of those of its load patterns taken alone, '
  'for any factors (zero, negative, large) and whatever order the patterns were added in; a pattern added again counts once, with its latest factor, and a pattern '
  'used in one case does not influence another.',
  ['inputs', 'histories'], 'every list of patterns and factors in a case, and every order of adding them',
  'Tests use one pattern with factor 1; superposition quantifies over all factor vectors and addition histories.',
  [C + 'fe_model/load/__init__.py', C + 'fe_model/load/loadcase.py', C + 'fe_model/assembly.py'],
  [('factor-weighted accumulation', C + 'fe_model/load/__init__.py get_nodal_f, get_beam_f')],
  ['nodal displacements, reactions, member end forces per case'],
  MC % ('factor vectors, pattern subsets and addition orders', 'compared with the sum of single-pattern solutions'),
  'Bounded-exhaustive over a 6-value factor alphabet on triples of 5 patterns, three frames.')
P('P03', 'Supports hold exactly the restrained displacements, per case or globally',
  'A restrained displacement of a node is exactly zero in the solution and every unrestrained one is free; a case with restraints of its own uses only those, '
  'any other case uses the global ones; the latest setting for a node replaces the earlier one.',
  ['inputs', 'configurations', 'histories'], 'every assignment of restraints to nodes, globally and per case, set in any order',
  'Tests fix one end completely; the bookkeeping of restrained indices must be right for every subset and every node order.',
  [C + 'fe_model/assembly.py', C + 'fe_solver/static.py', C + 'fe_model/model.py', C + 'fe_model/load/__init__.py'],
  [('dropping restrained rows and columns', C + 'fe_model/assembly.py assemble_boundary'), ('re-inserting zeros', C + 'fe_solver/static.py solve_linear')],
  ['nodal displacements'],
  MC % ('restraint subsets, global/case combinations and definition orders', 'against an independent frame oracle'),
  'All 2^12 restraint subsets of a two-node member and all menu products on three nodes; unstable assignments are enumerated and skipped.')
P('P04', 'Member loads act through statically equivalent, consistent end loads',
  'Linearly varying and point loads on a member, in any combination of components and at any position, give fixed-end forces that equal the exact fixed-end reactions of an '
  'elastic beam and are statically equivalent to the load; different load kinds on one member add up and a later definition replaces an earlier one.',
  ['inputs'], 'every component subset, every load position and every member length',
  'Tests check single components on one beam; the closed-form coefficients must be right for every component, ratio and length.',
  [C + 'fe_model/load/pattern.py', C + 'fe_model/assembly.py'],
  [('closed-form fixed-end coefficients', C + 'fe_model/load/pattern.py get_beam_f')],
  ['equivalent end loads of a load pattern', 'end forces and reactions of fixed-fixed members'],
  MC % ('component sign patterns x positions x lengths', 'against numerical quadrature of the beam shape functions'),
  'All 3^8 and 3^6 sign patterns; a positive answer is exact to 1e-9 for the enumerated lengths and positions.')
P('P05', 'Results are objective under rigid motion and change of units',
  'Translating or turning a whole model with its loads, or expressing it in other consistent units, moves, turns or rescales displacements and reactions accordingly and leaves member end forces and deformations in local axes unchanged.',
  ['inputs', 'configurations'], 'every rigid motion compatible with the documented local-axis rule and every change of length and force unit',
  'Tests place one beam on the X axis at the origin; special cases in axis construction and absolute tolerances only show elsewhere.',
  [C + 'fe_model/element/line/__init__.py', 'hyperstatic/common/csys.py', C + 'fe_model/assembly.py', C + 'fe_post/beam.py'],
  [('local axes and transformation', C + 'fe_model/element/line/__init__.py; hyperstatic/common/csys.py')],
  ['nodal displacements, reactions, end forces, deformations'],
  MC % ('a finite group of rigid motions and a lattice of unit changes', 'as a metamorphic relation between executions'),
  '24 cube rotations, skew rotations, rotations about the vertical, translations, unit scalings of four frames; relational oracle, no absolute values.')
P('P06', 'Results do not depend on names, creation order or member direction',
  'Renaming nodes, members or load cases, creating them in another order, or exchanging the two ends of a member (with its loads and releases mirrored) changes no displacement, reaction or end force of the corresponding node or member.',
  ['configurations', 'histories'], 'every permutation of creation order and names and every subset of reversed members',
  'Tests create nodes in order along one line, where index mix-ups between numbering and position cancel.',
  [C + 'fe_model/model.py', C + 'fe_model/assembly.py', C + 'fe_post/beam.py', C + 'fe_post/node.py'],
  [('name to index map', C + 'fe_model/model.py'), ('scatter of element matrices', C + 'fe_model/assembly.py')],
  ['nodal displacements, reactions, end forces'],
  MC % ('relabellings, orders and reversals', 'as a metamorphic relation between executions'),
  'All 24 node orders x member orders, all member reversals, several naming styles on three frames.')
P('P07', 'Released member ends transmit no force and the rest is unaffected',
  'A released end displacement of a member transmits exactly no force, and the remaining displacements, end forces and reactions are those of the structure with that connection removed, for any set of releases on any members and any loads; setting releases again replaces the earlier set.',
  ['inputs', 'configurations'], 'every subset of the twelve end releases, on one or several members, with any load',
  'No test sets a release; several releases on one member interact through the elimination.',
  [C + 'fe_model/element/line/__init__.py', C + 'fe_model/model.py', C + 'fe_model/assembly.py'],
  [('static condensation', C + 'fe_model/element/line/__init__.py condensate')],
  ['nodal displacements, end forces, reactions'],
  MC % ('all 2^12 release subsets and a product of release menus', 'against an independent pseudo-inverse elimination'),
  'All subsets on a skew member; vertical member every fourth block in the quick tier. Loads on mechanisms inside a member are skipped.')
P('P08', 'A model definition says exactly what was defined, in any order',
  'After any sequence of definition operations the model reports exactly the nodes, members, shells, supports and masses successfully defined, the latest definition of a name being the one in force. '
  'Every object has a unique consecutive index that never changes, and an operation with a dangling reference reports failure and changes nothing.',
  ['histories'], 'every sequence of definition operations, valid or with dangling references, first definitions or redefinitions',
  'Tests define each object once in one order; redefinition, coincidence and failure paths form an exponential set of histories.',
  [C + 'fe_model/model.py', C + '__init__.py', C + 'fe_model/node.py'],
  [('name dictionaries and index assignment', C + 'fe_model/model.py add_node, add_beam, add_shell'), ('status-returning interface', C + '__init__.py class Api')],
  ['definition status', 'name, location and connection queries', 'index queries'],
  MC % ('operation histories up to a depth', 'in lockstep with a reference dictionary model'),
  'All histories of depth 3 (quick) or 4 (thorough) over about 33 operations from two initial models, on the Api and on the model in lockstep.',
  state=[('name to object maps', 'objects defined so far', C + 'fe_model/model.py')])
P('P09', 'Load patterns and cases keep exactly the loads last set',
  'A load pattern reports for every node and member exactly the loads last set on it, and a case reports the factor-weighted, time-scaled sum of its patterns and its own restraints; queries never change anything and objects that were not set contribute nothing.',
  ['histories'], 'every sequence of load, pattern-in-case, factor and restraint settings, with any query in between',
  'Tests set one load and read it back; the guarantee is about all histories of two patterns, two cases and repeated settings.',
  [C + 'fe_model/load/pattern.py', C + 'fe_model/load/__init__.py', C + 'fe_model/load/loadcase.py'],
  [('per-object load stores', C + 'fe_model/load/pattern.py'), ('weighted sums', C + 'fe_model/load/__init__.py'), ('time curves', C + 'fe_model/load/loadcase.py')],
  ['pattern load queries', 'case load queries per node, member and time step'],
  MC % ('load bookkeeping histories up to a depth', 'in lockstep with a reference dictionary model'),
  'All histories of depth 3 (quick) and 4 (thorough). Factors are only changed for patterns already in the case.')
P('P10', 'Saving and loading a model is invisible',
  'A model loaded from a file equals the model that was saved, and a modelling session interrupted anywhere by saving and loading, any number of times, ends with the same model, statuses and results as the uninterrupted session; each file name holds the model last saved under it and a name never saved loads as nothing.',
  ['histories'], 'every position and number of interruptions of a session and every history of saves and loads under several names',
  'Tests never save and load; every kind of object and every position of the interruption matters.',
  [C + '__init__.py', C + 'fe_model/model.py', C + 'fe_model/node.py', C + 'fe_model/element/line/simple_beam.py', C + 'fe_model/element/line/beam.py'],
  [('persistence', C + '__init__.py Api.save, Api.load')],
  ['all model queries', 'statuses', 'static results after loading'],
  MC % ('interruption positions and save/load/edit histories', 'compared with the uninterrupted execution'),
  'Three scripted sessions x every cut position (pairs in the thorough tier), and all store histories of length 4 (5 thorough).')
P('P11', 'Interrupted or failing saves and solves never yield a wrong model or result',
  'If saving, assembling or solving is interrupted at any point, or its writes fail, then loading gives the complete model saved before or the complete new one and displacement queries give complete old or new results or a reported failure. '
  'A save that reports success is complete, one that reports failure leaves the earlier file intact, and repeating the operation afterwards succeeds.',
  ['crash_points', 'fault_sequences'], 'every crash point and every torn prefix of every file written, for first and repeated operations',
  'No test interrupts anything; the guarantee is about every byte position at which the process may die or the disk may fill up.',
  [C + '__init__.py', C + 'fe_model/assembly.py', C + 'fe_solver/static.py', C + 'fe_solver/__init__.py', C + 'fe_post/__init__.py'],
  [('model file', C + '__init__.py Api.save, Api.load'), ('assembly and result files', C + 'fe_model/assembly.py save; fe_solver/static.py solve_linear')],
  ['loading in a fresh session', 'operation status', 'displacement queries after the crash'],
  'fault-injecting model checking: exhaustive enumeration of crash points and torn writes of the real code under a file-event hook and a write limit, against old-or-new oracles',
  'Every file event and every written byte (every 11th of files over 1500 bytes in the quick tier). Writes reach the disk in program order.')
P('P12', 'Results always belong to one consistently assembled model',
  'Through any sequence of editing, assembling and solving, a displacement query answers with the last successful solution of that case, computed from the model as it was when last assembled before that solution, or reports failure if there is none. '
  'After solving, displacements, reactions and end forces of a case belong to the same model; edits show only after assembling and solving again, solving one case leaves the results of others alone, and two sessions in separate directories do not influence each other.',
  ['histories'], 'every sequence of edits, assemblies and solutions of several cases, and every interleaving of two sessions',
  'Tests run one fixed sequence define-assemble-solve-query; staleness and cross-talk only show in other orders.',
  [C + '__init__.py', C + 'fe_model/assembly.py', C + 'fe_solver/static.py', C + 'fe_solver/__init__.py', C + 'fe_post/__init__.py', C + 'fe_post/node.py'],
  [('assembly file', C + '__init__.py Api.assemble; ' + C + 'fe_model/assembly.py save'), ('result files per case', C + 'fe_solver/static.py solve_linear')],
  ['statuses', 'displacements, reactions, end forces after every history'],
  MC % ('workspace histories up to a depth and interleavings of two sessions', 'in lockstep with a snapshot reference and an independent frame oracle'),
  'All histories of 11 operations to depth 3 (unassembled) / 4 (solved), one more in the thorough tier; two sessions depth 5 (6).',
  state=[('assembled snapshot', 'the model as last assembled', C + 'fe_model/assembly.py save'), ('solutions per case', 'displacements as last solved', C + 'fe_solver/static.py')])
P('P13', 'End forces, reactions and deformations are in equilibrium and compatible',
  'In every static solution each member is in equilibrium under its end forces and loads, each node under the member end forces, its load and its reaction, and the structure under all loads and reactions; reactions vanish at unrestrained displacements. '
  'The reported deformation of a member matches the end displacements at its ends and, between them, the cubic (axially and in torsion linear) elastic shape they define.',
  ['inputs', 'configurations'], 'every frame, load, release set, case, member and station along a member',
  'Post-processing has almost no tests, and equilibrium couples transformation, load and release code for every direction and numbering.',
  [C + 'fe_post/beam.py', C + 'fe_post/node.py', C + 'fe_model/assembly.py', C + 'fe_model/element/line/__init__.py', C + '__init__.py'],
  [('end forces', C + 'fe_post/beam.py resolve_beam_end_force'), ('reactions', C + 'fe_post/node.py resolve_nodal_reaction'), ('shape functions', C + 'fe_model/element/line/__init__.py interpolate')],
  ['end force, reaction and deformation queries'],
  MC % ('frame models, cases, members and stations', 'against equilibrium, an independent frame oracle and models cut at the stations'),
  'All lattice directions and all connected graphs on up to 4 nodes, one case per load component plus full loads.')
P('P14', 'Section and material properties equal the exact geometry for all dimensions',
  'The area, second moments, section moduli, radii of gyration, torsion constant and shear areas of every section equal those of its outline for all dimensions, sections of different shape describing the same outline agree, the '
  'derived elastic constants and the stresses of a material satisfy the isotropic relations, and a member with that section deflects accordingly in each direction.',
  ['inputs', 'configurations'], 'every combination of dimensions of every section shape, in any units, and every material',
  'Tests check one section per shape; formulas with piecewise branches and swapped axes must be right for all proportions.',
  [C + 'fe_model/section/beam_section.py', C + 'fe_model/material/isotropy.py', C + '__init__.py'],
  [('section formulas', C + 'fe_model/section/beam_section.py'), ('materials', C + 'fe_model/material/isotropy.py')],
  ['section property queries', 'tip displacements of cantilevers with the section'],
  MC % ('a lattice of section dimensions and materials', 'against outline integration and series solutions computed independently'),
  'Every lattice point is decided exactly (tolerance 1e-5; 1 % for torsion of thin rectangles); between lattice points nothing is claimed.')
P('P15', 'Coordinate frames stay orthonormal, right-handed and correctly oriented',
  'Every local coordinate frame, built from points or a normal and then moved or turned any number of times, is orthonormal and right-handed with exactly the orientation and origin the operations define, and an operation rejected for degenerate input leaves it unchanged.',
  ['inputs', 'histories'], 'every set of defining points and every sequence of reorientations',
  'Tests try a few frames; orientation errors accumulate over sequences and appear in degenerate or turned positions.',
  ['hyperstatic/common/csys.py', C + 'fe_model/node.py'],
  [('frame construction', 'hyperstatic/common/csys.py'), ('node frames', C + 'fe_model/node.py')],
  ['axes, origin and transformation matrix of a frame'],
  MC % ('defining points on a lattice and reorientation histories up to a depth', 'against a reference built on Rodrigues\' formula'),
  'All lattice triples and all histories of depth 3 (quick) or 4 (thorough) from three initial frames.')
P('P16', 'Natural modes are the lowest eigenpairs of the modelled structure',
  'A modal solution reports, for any number of modes requested, the lowest natural frequencies in ascending order with mass-normalised, mutually orthogonal shapes that satisfy the eigenproblem of the modelled stiffness and mass; '
  'circular frequency, frequency and period are mutually consistent, and the shapes reported per node belong to that node.',
  ['inputs', 'configurations'], 'every frame, support set, mass distribution and number of modes',
  'Tests compare one cantilever; sparsity, massless displacements, requested counts and restrained numbering vary with the model.',
  [C + 'fe_solver/dynamic.py', C + 'fe_post/structure.py', C + 'fe_post/node.py', C + 'fe_model/assembly.py', C + '__init__.py'],
  [('eigen solver', C + 'fe_solver/dynamic.py ModalSolver'), ('mass matrix', C + 'fe_model/assembly.py assemble_M'), ('frequency query', C + 'fe_post/structure.py')],
  ['frequency query', 'nodal mode shapes', 'saved modal results'],
  MC % ('frame models, mass placements, supports and mode counts', 'against an independent dense generalised eigenproblem'),
  'Family of stable frames; frequencies agree to 1e-6 relative. Modes beyond the number of massive displacements are not requested.')
P('P17', 'Mass is neither lost nor invented',
  'The mass matrix of a member is the exact integral of its density over its shape functions (or half of it at each end when lumped), and the mass of a structure is the sum of member and nodal masses at exactly the nodes that carry them, '
  'independent of direction, numbering, supports and cases; a nodal mass set again replaces the earlier one.',
  ['inputs', 'configurations', 'histories'], 'every member, section, density, topology and sequence of mass definitions',
  'Tests check one element; conservation must hold for every direction, release and shared node.',
  [C + 'fe_model/element/line/beam.py', C + 'fe_model/element/line/simple_beam.py', C + 'fe_model/element/line/__init__.py', C + 'fe_model/assembly.py', C + 'fe_model/node.py'],
  [('element mass', C + 'fe_model/element/line/simple_beam.py integrate_M'), ('assembly', C + 'fe_model/assembly.py assemble_M')],
  ['element and assembled mass matrices'],
  MC % ('member parameters, frame topologies and mass-setting histories', 'against quadrature and an independent tributary sum'),
  'Releases of translations are outside the family; every graph on up to 4 nodes.')
P('P18', 'Stiffness is symmetric, positive and stress-free exactly under rigid motion',
  'Element and structure stiffness are symmetric, give positive energy to every deformation and none to rigid motions, for any member direction, releases and rotation about the member axis; '
  'turning a member again replaces its earlier rotation, and the structure responds as its turned members prescribe.',
  ['inputs', 'configurations', 'histories'], 'every member direction and section, every release set, every sequence of member rotations',
  'Tests compare a few entries; these invariants quantify over directions, release sets and rotation histories.',
  [C + 'fe_model/element/line/__init__.py', C + 'fe_model/element/line/simple_beam.py', C + 'fe_model/element/line/beam.py', C + 'fe_model/assembly.py', C + 'fe_model/model.py'],
  [('element stiffness', C + 'fe_model/element/line/simple_beam.py integrate_K'), ('rotation', C + 'fe_model/element/line/__init__.py'), ('condensation', C + 'fe_model/element/line/__init__.py condensate')],
  ['element and assembled stiffness', 'displacements of frames with turned members'],
  MC % ('directions, release sets, rotation histories and frame topologies', 'against an inverse-flexibility oracle and the rigid-motion null space'),
  'All 4096 release sets in two directions; all rotation histories of depth 3; graphs on up to 4 nodes.')
P('P19', 'Shells carry constant stress exactly, in any plane and however numbered',
  'The stiffness of a shell is symmetric and never negative, unstressed by translations and rotations, and proportional to Young\'s modulus and to thickness (its cube in bending); every constant curvature, and every constant in-plane strain of a quadrilateral, '
  'has exactly its theoretical energy for any shape, size, orientation in space and numbering of corners. A shell combines its in-plane and bending parts as its section type says; meshes of shells, also with members, are the sum of their parts and reproduce constant stress states.',
  ['inputs', 'configurations', 'histories'], 'every planar convex shell, section, material, orientation and numbering, and every mesh of them',
  'Tests compare one triangle and one square mesh with numbers; patch states, objectivity and numbering quantify over all shapes and orientations.',
  [C + 'fe_model/element/quad/DKGQ.py', C + 'fe_model/element/tria/DKT.py', C + 'fe_model/element/quad/__init__.py', C + 'fe_model/element/tria/__init__.py', C + 'fe_model/meta/', C + 'fe_model/section/shell_section.py', C + 'fe_model/assembly.py', C + 'fe_model/model.py'],
  [('shell stiffness', C + 'fe_model/element/quad/DKGQ.py and tria/DKT.py integrate_K'), ('compiled kernels', C + 'fe_model/meta/*/wrapped_code_0.c'), ('assembly of shells', C + 'fe_model/assembly.py assemble_K')],
  ['shell and structure stiffness', 'displacements and reactions of meshes'],
  MC % ('shell shapes, orientations, numberings, sections and materials, mesh and definition histories', 'against an independent discrete-Kirchhoff and bilinear element, exact energies and exact patch states'),
  'Known findings: in-plane stiffness of triangles, and the drilling part of quadrilaterals numbered from every second corner. quadpy is replaced by equivalent rules.')
P('P20', 'Time histories are the response of the structure to its load curves',
  'For every load curve, or several of different lengths, a direct time integration reports at every step for every node and member the displacements and end forces that the equation of motion with the modelled mass, stiffness, '
  'damping ratio and supports gives by the central-difference rule from rest; a curve that has ended applies nothing.',
  ['inputs', 'histories', 'configurations'], 'every load curve over a value alphabet up to a length, every pair of curve lengths, every mass, damping and support choice',
  'No test runs a complete time history; errors in the recursion show only after several steps or with several degrees of freedom.',
  [C + 'fe_solver/dynamic.py', 'hyperstatic/common/curve.py', C + 'fe_model/load/loadcase.py', C + 'fe_model/load/__init__.py', C + 'fe_post/node.py', C + 'fe_post/beam.py', C + '__init__.py'],
  [('time stepping', C + 'fe_solver/dynamic.py TimeHistorySolver'), ('load histories', C + 'fe_model/load/__init__.py'), ('step queries', C + 'fe_post/node.py, fe_post/beam.py')],
  ['displacements and end forces at every step', 'values of load curves'],
  MC % ('load-curve histories, curve-length pairs and dynamic frame models', 'against an independent central-difference integration'),
  'All curves up to length 4 (quick) or 5 (thorough) over three values; reactions of time histories are not compared.')

P('P21', 'Design spectra follow the code for every period and parameter',
  'For every maximum coefficient, characteristic period and damping ratio, both implementations of the seismic design spectrum give at every period the value the design code defines (rising branch, plateau, '
  'curved and straight falling branches, damping adjustments with their bounds); the curve is continuous, falls beyond its plateau and is proportional to the maximum coefficient.',
  ['inputs', 'configurations'], 'every combination of coefficient, characteristic period, damping ratio and period',
  'Nothing tests the spectra; a wrong branch or bound shows only for some combination of period and damping.',
  ['hyperstatic/app/design/GB/seismic/spectrum.py', 'hyperstatic/app/seismic/wave2spec.py'],
  [('tabulated spectrum', 'hyperstatic/app/design/GB/seismic/spectrum.py GB50010'), ('spectrum as a mapping', 'hyperstatic/app/seismic/wave2spec.py GB50011_spectrum')],
  ['the periods and coefficients of the spectra'],
  MC % ('spectrum parameters on a lattice, at every period', 'against the definition in the design code and each other'),
  'A lattice with all values tabulated in the code: 14 characteristic periods, 16 damping ratios, 5 (13) coefficients, 601 periods.')

P('P22', 'Response spectra of records are the peak responses of oscillators',
  'For every ground-motion record, time step, damping ratio and design peak, the acceleration, velocity and displacement spectra give at every period the peak response, of either sign, of a damped oscillator to the record '
  'scaled to that peak; the convolution and the Fourier method agree, over the whole record, and a change of sign or factor of the record does not matter.',
  ['inputs', 'histories'], 'every record over a value alphabet up to a length, every step, damping ratio and design peak',
  'Nothing tests the spectra; a wrong decay or frequency, or a peak of the other sign, needs particular records to show.',
  ['hyperstatic/app/seismic/wave2spec.py'],
  [('convolution', 'hyperstatic/app/seismic/wave2spec.py wave2spectrum, duhamel'), ('Fourier', 'hyperstatic/app/seismic/wave2spec.py fft2spec'), ('records', 'hyperstatic/app/seismic/wave2spec.py read_wave')],
  ['the periods and spectral values returned for a record file'],
  MC % ('ground-motion records over a value alphabet up to a length', 'against impulse-response superposition and exact stepping of the equation of motion'),
  'All records up to length 4 (6) over four values with a tail; pulse sequences, and records of up to 5000 points, to 3 %. Pseudo-spectral acceleration and velocity.')

P('P23', 'Clearing the workspace removes all results and nothing else',
  'A session creates its work directory if it is missing and keeps everything it stores in it; clearing the workspace leaves that directory existing and empty and everything else, including the model and neighbouring sessions, untouched, and reports success '
  'exactly if the directory existed. Afterwards no result and no saved model is reported until it is stored again, and assembling and solving gives the same results; a clearing that fails or is interrupted anywhere leaves complete old results or none and can be repeated.',
  ['histories', 'fault_sequences'], 'every sequence of solving, saving, loading, clearing and outside changes of the directory, and every fault point of clearing',
  'No test clears a workspace; a clearing that takes too much, too little or leaves stale state shows only in particular histories.',
  [C + '__init__.py', C + 'fe_model/assembly.py', C + 'fe_post/__init__.py'],
  [('clearing', C + '__init__.py clear_workspace'), ('work directory on demand', C + '__init__.py Api.__init__, fe_model/assembly.py save'), ('results read from the directory', C + 'fe_post')],
  ['statuses, directory contents, displacement, force and reaction queries, loaded models'],
  MC % ('workspace histories up to a depth and all fault points of clearing', 'in lockstep with a reference content of the directory and the frame oracle'),
  'An audit hook keeps every deletion inside a scratch directory, whatever the code does. The parent directory exists; a work directory that itself is a symbolic link is not covered.')

P('P24', 'Element kernels, their derivations and the plate theory agree',
  'Every compiled shell kernel gives, for every shape, material, thickness and point of the element, the values of the documented derivation it was generated from. The thick plate stores at every thickness exactly the energy of a constant curvature, '
  'no shear in it and nothing in rigid motions, in whatever plane it lies and however its corners are numbered. The interpolation functions are nodal bases that reproduce their polynomials, and the differential operators, Jacobians and the constitutive law are exact.',
  ['inputs'], 'every shape, starting corner, material, thickness and point of a grid; every monomial and nodal functional',
  'The generated kernels are thousands of lines of C that nobody reads; a wrong term shows only for some shapes, points or thicknesses, and tests look at single entries of one square.',
  [C + 'fe_model/meta', C + 'fe_model/element/quad/TMGQ.py'],
  [('derivations', C + 'fe_model/meta/membranes, meta/plates'), ('kernels', C + 'fe_model/meta/*/*/*.c, *.pyx'), ('thick shell', C + 'fe_model/element/quad/TMGQ.py'), ('interpolation and operators', C + 'fe_model/meta/interpolate, operator.py, jacobi.py, isotropy.py')],
  ['values of the kernels, derivations, interpolation functions and element stiffnesses'],
  MC % ('shapes, corners, materials, thicknesses and points of the element', 'against the derivations evaluated independently of the generated code and against plate theory'),
  'Shapes of a family of 9 quadrilaterals and 7 triangles, 36 (21) points, 3 materials, thicknesses over six decades. The consistency of the triangle membrane with theory is a known finding of P19; derivations no longer kept under their name are counted and skipped.')

P('P25', 'Members and assembly agree on displacements, stiffness and numbering',
  'The interpolation, its slope, the stiffness, the released stiffness, the condensed loads, the mass and the axes reported for a member, alone or through the assembly, local or global, are those of one and the same member: '
  'the strain energy of the interpolation is the stiffness and eliminating the released displacements gives the released stiffness and loads. The assembled system is exactly the sum of the reported pieces at the reported numbers, reduced by exactly the restrained displacements; '
  'insertion that asks for duplicate detection reports the object already there and adds nothing, for either kind and direction of member.',
  ['inputs', 'configurations', 'histories'], 'every direction, length, section, turn and release set; every small graph, numbering and support subset; every sequence of insertions up to a depth',
  'The tests look at a few entries for one horizontal member; a wrong sign, frame or number shows for particular directions, releases or numberings, and partly only in queries no test makes.',
  [C + 'fe_model/element/line', C + 'fe_model/model.py', C + 'fe_model/assembly.py'],
  [('interpolation', C + 'fe_model/element/line/simple_beam.py, beam.py get_shape_function, interpolate, interpolate1'), ('releases', C + 'fe_model/element/line/__init__.py condensate'),
   ('member queries', C + 'fe_model/model.py get_beam_*'), ('assembly', C + 'fe_model/assembly.py'), ('duplicate detection', C + 'fe_model/model.py add_node, add_beam, add_simple_beam')],
  ['matrices, functions, numbers and names reported by the model and the assembly'],
  MC % ('member configurations, the 4096 release sets, graphs with their numberings and insertion sequences', 'against an independent member, simultaneous elimination and summation of the pieces'),
  'Directions of the lattice and special ones, 4 lengths, 2 sections, 4 turns; graphs on 3 and 4 nodes; insertion sequences to depth 3 (4). The lumped mass of members with releases is left open.')

P('P26', 'Refused or unrelated requests change no result',
  'A request that cannot be carried out (unknown names, members without length, shells with nodes in a line, unusable arguments, cases that do not exist) is reported as failed, raises nothing, and leaves no trace. '
  'Whatever requests of that sort, premature requests that are made again in their place, or requests that concern nothing the analysis uses are mixed into a session, and wherever, its displacements, reactions, end forces, deformations and modes are those of the undisturbed session; the same holds when a caller changes the values a query has handed out.',
  ['histories', 'inputs'], 'every position of every impossible, premature or unrelated request in complete sessions, and pairs of them',
  'Failing requests are hardly tested; a partial effect of one shows only later, in results of something else.',
  [C + '__init__.py', C + 'fe_model/model.py', C + 'fe_model/load', C + 'fe_model/assembly.py', C + 'fe_solver'],
  [('interface', C + '__init__.py'), ('definition', C + 'fe_model/model.py'), ('degenerate geometry', C + 'fe_model/element, hyperstatic/common/csys.py'), ('cases and patterns', C + 'fe_model/load')],
  ['statuses and all result queries'],
  MC % ('complete sessions with foreign requests inserted at every position', 'in comparison with the undisturbed session'),
  'Three sessions of 18 to 29 requests, 55 impossible requests, 21 unrelated ones, every request of the session too early, every query with its answer overwritten (every third position); pairs over a reduced alphabet.')

P('P27', 'Names are only names',
  'Any two different strings are different names: nodes, materials, sections, members, shells, load patterns and cases may be called anything, including names that differ in letter case, blanks or leading zeros only, that begin with one another, or that another kind of thing has too. '
  'Giving the things of a model other names changes no status and no result, only the names under which the queries, the results and a reloaded file report them. A name that cannot be the name of a result file may be refused for a case only.',
  ['inputs', 'programs'], 'every ordered pair of names of a pool for two things of every kind, and for all kinds at once',
  'Tests call things by short plain words; a store keyed by a changed name shows only with names that collide after the change.',
  [C + '__init__.py', C + 'fe_model/model.py', C + 'fe_model/load', C + 'fe_solver', C + 'fe_post'],
  [('interface', C + '__init__.py'), ('stores of the model', C + 'fe_model/model.py'), ('stores of patterns and cases', C + 'fe_model/load'), ('names of result files', C + 'fe_solver, ' + C + 'fe_post')],
  ['statuses, name queries and all result queries'],
  MC % ('all ordered pairs of a pool of names for every kind of thing', 'in comparison with the same session under plain names'),
  'Pool of 25 names (28 where they name no files; 46 in the thorough tier); one session with frame, wall, supports by case, modal case; pairs of kinds in the thorough tier.')

P('P28', 'Models in one process do not influence one another',
  'Several models may be worked on in one process, each in a working directory of its own, and may use the same names for different things. '
  'Whatever is done with one of them, and at whatever moment - between requests to another, or in the middle of one, as when two threads take turns - the status of every request to the other, and every result of it, is what it would be if that model were alone in its process.',
  ['schedules', 'histories'], 'every switch between two sessions at any line of the code, every pair of switches within one function, every interleaving of their blocks',
  'Tests run one model at a time; state shared between models shows only with a second model that differs, and at particular moments.',
  [C + '__init__.py', C + 'fe_model', C + 'fe_solver', C + 'fe_post', 'hyperstatic/common/csys.py', 'hyperstatic/app/seismic/wave2spec.py'],
  [('interface', C + '__init__.py'), ('model and elements', C + 'fe_model'), ('assembly', C + 'fe_model/assembly.py'), ('solution and results', C + 'fe_solver, ' + C + 'fe_post')],
  ['statuses and results of both sessions'],
  'stateless model checking: systematic preemption-bounded exploration of the schedules of two sessions on the real code under a controlled scheduler, compared with each session alone in a process',
  'Five kinds of session in two variants; one preemption at every line, two preemptions in one function, all block interleavings; switches inside library calls are out of bounds.')
