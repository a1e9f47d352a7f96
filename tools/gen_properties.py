#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
G = "lib/lf/geometry/"
M = "lib/lf/mesh/"
R = "lib/lf/refinement/"

prop("C01", "Entity shape mappings and their derivatives agree with the nodes",
 "For every admissible point, segment, triangle or quadrilateral shape (straight or second order, in the plane or in space) the map from reference to world coordinates is the Lagrange interpolant of the defining nodes. The reported Jacobians, generalised inverse-transposed Jacobians and volume elements are exactly those derived from that map, whether points are passed one at a time or in a batch, and corners, dimensions, volume and affinity flags describe the same shape.",
 ["inputs"], "all non-degenerate node configurations (scaled, rotated, flipped, sheared, curved, embedded in 2D/3D), all batches of reference points",
 "The unit tests evaluate a few hand-picked shapes and compare against difference quotients; errors that show only for particular nodes, affine special cases, flipped orientation, 3D embedding or batch sizes are not reached.",
 [G+"quad_o1.cc", G+"quad_o2.cc", G+"tria_o1.cc", G+"tria_o2.cc", G+"segment_o1.cc", G+"segment_o2.cc", G+"point.cc", G+"geometry_interface.cc"],
 [("Global/Jacobian/JacobianInverseGramian/IntegrationElement", G+"*.cc"), ("Volume, Corners", G+"geometry_interface.cc")],
 ["Geometry::Global", "Geometry::Jacobian", "Geometry::JacobianInverseGramian", "Geometry::IntegrationElement", "geometry::Volume", "geometry::Corners"])

prop("C02", "Sub-entity shapes and refined child shapes are restrictions of the parent",
 "The shape of any sub-entity of a cell or edge parametrises exactly the corresponding face of the parent, with the documented direction. The children produced from any refinement pattern are the images under the parent map of the pattern's child polygons, are non-degenerate, carry the parent's approximation order and together have the parent's volume for shapes on which the construction is exact.",
 ["inputs", "configurations"], "all shapes of C01, all sub-entity indices, all refinement patterns with all anchor edges, all points of the children",
 "Tests check a handful of fixed geometries and only some patterns and anchors; the relation must hold for every combination of shape, pattern, anchor and child.",
 [G+"quad_o1.cc", G+"quad_o2.cc", G+"tria_o1.cc", G+"tria_o2.cc", G+"segment_o1.cc", G+"segment_o2.cc", R+"hybrid2d_refinement_pattern.cc"],
 [("SubGeometry", G+"*.cc"), ("ChildGeometry", G+"*.cc")],
 ["Geometry::SubGeometry", "Geometry::ChildGeometry"])

prop("C03", "A built mesh represents exactly the cells, edges and nodes it was given",
 "Building a mesh from any admissible list of nodes, optional edges and cells yields entities numbered as promised (order of insertion; unsupplied edges follow), with exactly one edge per cell side, sub-entities in the documented order, correct relative orientations and consistent global index lookups. Every entity's shape coincides with the supplied shape, or with the one inherited from a neighbouring cell, at its nodes and along its whole extent.",
 ["inputs", "histories"], "all sequences of node/edge/cell insertions describing a conforming hybrid mesh: any order, any vertex rotation or reflection of cells, any subset of explicitly supplied edges, with or without explicit geometry, planar or embedded in 3D",
 "Tests build a few fixed meshes; the edge matching, numbering and geometry inheritance depend on insertion order, vertex numbering and which edges were supplied.",
 [M+"hybrid2d/mesh.cc", M+"hybrid2d/mesh_factory.cc", M+"hybrid2d/triangle.cc", M+"hybrid2d/quad.cc", M+"hybrid2d/segment.cc", M+"hybrid2d/point.cc"],
 [("edge identification by end points", M+"hybrid2d/mesh.cc"), ("index assignment", M+"hybrid2d/mesh_factory.cc")],
 ["MeshFactory::AddPoint/AddEntity/Build", "Mesh::Entities/Index/EntityByIndex/Contains", "Entity::SubEntities/RelativeOrientations/Geometry/RefEl"])

prop("C04", "Structured mesh builders deliver the advertised mesh",
 "For every number of cells per direction and every admissible box the tensor-product triangle and quadrilateral builders, the torus builder and the annulus builder produce a conforming mesh with the advertised entity counts, numbering and vertex positions. Its cells tile the advertised domain without gaps or overlaps and its boundary edges lie exactly on the boundary of that domain.",
 ["inputs", "configurations"], "all cell counts and all admissible corner coordinates, radii and centres, in any call order of the setters",
 "Tests use one or two fixed sizes, usually square, and mostly compare counts.",
 [M+"utils/tp_triag_mesh_builder.cc", M+"utils/tp_quad_mesh_builder.cc", M+"utils/torus_mesh_builder.cc", M+"utils/structured_mesh_builder.h", "projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc"],
 [("VertexIndex / cell construction", M+"utils/tp_*_mesh_builder.cc")],
 ["Build()"])

prop("C05", "Mesh data sets and topology queries agree with the mesh",
 "Data attached to mesh entities is stored per entity and returned unchanged, whatever was written to other entities, and is defined exactly on the entities of the requested co-dimensions of the mesh the data set was made for. Boundary flags of every co-dimension, counts of adjacent super-entities and selections of entities by the position of their centre equal what a brute-force enumeration of the mesh yields.",
 ["inputs", "histories"], "all meshes (with holes, several components, pinched vertices, hybrid cells), all sequences of writes, all value types, codimensions and selectors",
 "Tests look at one or two fixed meshes; boundary detection and counting must be right for every topology.",
 [M+"utils/special_entity_sets.cc", M+"utils/special_entity_sets.h", M+"utils/codim_mesh_data_set.h", M+"utils/all_codim_mesh_data_set.h", "lib/lf/refinement/mesh_hierarchy.h"],
 [("CountNumSuperEntities, flagEntitiesOnBoundary", M+"utils/special_entity_sets.cc"), ("EntityCenterPositionSelector", "lib/lf/refinement/mesh_hierarchy.h")],
 ["CodimMeshDataSet", "AllCodimMeshDataSet", "flagEntitiesOnBoundary", "CountNumSuperEntities", "EntityCenterPositionSelector"])

prop("C06", "Mesh-function expressions evaluate to the pointwise expression",
 "Any expression formed from mesh functions with the provided unary and binary operators, transposition, conjugation, squared norm, coefficient-wise or matrix products evaluates, at every entity and for every batch of local points, to the same expression of the operand values at each point. This holds for scalar, complex, vector and matrix values, of fixed or dynamic size and any storage order, and constant and global-coordinate mesh functions return what their definition says.",
 ["programs", "inputs"], "all well-typed expression trees up to a bounded depth over the supported value types, all entities, all batches of points",
 "Tests sample a handful of operator/type combinations on a fixed mesh; the operators have one specialised code path per operand shape.",
 [M+"utils/mesh_function_binary.h", M+"utils/mesh_function_unary.h", M+"utils/mesh_function_global.h", M+"utils/mesh_function_constant.h"],
 [("operator specialisations", M+"utils/mesh_function_binary.h"), ("unary operators", M+"utils/mesh_function_unary.h")],
 ["operator() of the resulting mesh function"])

prop("C07", "Refinement patterns partition the reference element conformingly",
 "For every reference element, every refinement pattern and every admissible anchor the child polygons lie in the reference element, have the same lattice resolution, do not overlap and cover it completely, and the announced numbers of children of every codimension are the numbers delivered. The child edges and child points on a side of the parent depend only on whether that side is split, so two neighbours that split the same side always match.",
 ["configurations", "inputs"], "all reference elements, patterns and anchors; all points and all line segments inside the reference element",
 "Tests check areas for some patterns; covering, non-overlap, interior edges and side compatibility need all points and all pairs of patterns.",
 [R+"hybrid2d_refinement_pattern.cc", R+"hybrid2d_refinement_pattern.h", G+"refinement_pattern.cc"],
 [("ChildPolygons / NumChildren", R+"hybrid2d_refinement_pattern.cc")],
 ["RefinementPattern::NumChildren", "RefinementPattern::ChildPolygons"])

prop("C08", "Every refinement history yields conforming meshes of the same domain",
 "After any sequence of uniform (regular or barycentric) and marked local refinements of any admissible hybrid mesh, every level is a conforming mesh: neighbouring cells share whole edges, there are no hanging nodes, duplicate nodes or duplicate edges, cells do not overlap and sub-entity incidences and orientations are consistent. Every level covers the same domain as the coarsest mesh, and its boundary is the refined boundary of the coarser level.",
 ["histories", "inputs"], "all initial meshes (hybrid, curved, non-convex, with holes) and all finite sequences of refinements with arbitrary edge markings",
 "Tests refine a few fixed meshes with a few marking rules; conformity depends on the whole history (inherited refinement edges, mixed patterns in neighbours).",
 [R+"mesh_hierarchy.cc", R+"mesh_hierarchy.h", R+"hybrid2d_refinement_pattern.cc"],
 [("RefineMarked pattern selection", R+"mesh_hierarchy.cc"), ("PerformRefinement", R+"mesh_hierarchy.cc")],
 ["MeshHierarchy::getMesh", "MeshHierarchy::RefineRegular", "MeshHierarchy::RefineMarked"])

prop("C09", "Refinement bookkeeping links parents and children truthfully",
 "On every level of every refinement history the recorded parents, child lists, child numbers, refinement patterns and relative geometries describe how the finer mesh really arose: each child lies inside its parent, each entity is the child of exactly one parent, children are listed in the pattern's order and the relative geometry maps the child's reference element onto its place in the parent. Every marked edge is split, and nothing is split that neither was marked nor is required by the closure rules or the uniform pattern.",
 ["histories", "inputs"], "all initial meshes and refinement histories as in C08, all entities of all levels and codimensions",
 "Tests verify parent-child relations on selected meshes after regular refinement; the bookkeeping of local refinement over several levels is history dependent.",
 [R+"mesh_hierarchy.cc", R+"mesh_hierarchy.h"],
 [("ParentInfos / ChildInfos / GeometryInParent", R+"mesh_hierarchy.cc")],
 ["MeshHierarchy::ParentInfos", "PointChildInfos/EdgeChildInfos/CellChildInfos", "GeometryInParent", "ParentEntity", "RefinementEdges"])

prop("C10", "Transferring functions to finer levels preserves them",
 "A function given on a coarse level of a refinement hierarchy has, after transfer to any finer level, the same value at every physical point. Prolonging the coefficient vector of a finite element function to a finer space that contains it yields the same function there.",
 ["histories", "inputs"], "all refinement histories, all pairs of coarse and fine level, all Lagrangian and hierarchical spaces (equal, larger or variable degree), all coefficient vectors and points",
 "Tests transfer a few analytic functions across uniform refinement of a fixed mesh.",
 [R+"mesh_function_transfer.h", "lib/lf/fe/prolongation.h"],
 [("MeshFunctionTransfer", R+"mesh_function_transfer.h"), ("prolongate", "lib/lf/fe/prolongation.h")],
 ["MeshFunctionTransfer::operator()", "fe::prolongate"])

prop("C11", "Degrees of freedom are numbered once, consistently and completely",
 "For every mesh and every assignment of numbers of unknowns to entities, uniform or entity dependent, global indices form a gapless range, each belongs to exactly one entity, and the index list of every entity consists of those of its sub-entities in the documented local order followed by its own. Unknowns on shared vertices and edges are seen identically from all adjacent cells, with the order on an edge reversed exactly when the cell traverses it backwards (if that option is active).",
 ["inputs", "configurations"], "all hybrid meshes and all assignments of non-negative numbers of unknowns per entity (type), with and without edge-orientation checking",
 "Tests print or check numberings for a few layouts on fixed meshes.",
 ["lib/lf/assemble/dofhandler.cc", "lib/lf/assemble/dofhandler.h"],
 [("UniformFEDofHandler/DynamicFEDofHandler init", "lib/lf/assemble/dofhandler.*")],
 ["DofHandler::NumDofs", "GlobalDofIndices", "InteriorGlobalDofIndices", "NumLocalDofs", "NumInteriorDofs", "Entity"])

prop("C12", "Assembly and the triplet matrix equal the dense reference computation",
 "Assembling any local matrices or vectors over the entities of any codimension gives exactly the sum of the local contributions of all active entities placed at the global indices of trial (columns) and test (rows) unknowns. The triplet matrix behaves like a dense matrix under any history of entry additions, resets, predicate-based clearing and products, and its sparse and dense conversions agree with it.",
 ["histories", "inputs"], "all meshes, dof layouts (trial and test different), active-entity predicates, local matrix providers (possibly oversized) and all sequences of triplet-matrix operations",
 "Tests assemble a few fixed providers and check selected entries.",
 ["lib/lf/assemble/assembler.h", "lib/lf/assemble/coomatrix.h"],
 [("AssembleMatrixLocally/AssembleVectorLocally", "lib/lf/assemble/assembler.h"), ("COOMatrix", "lib/lf/assemble/coomatrix.h")],
 ["AssembleMatrixLocally", "AssembleVectorLocally", "COOMatrix::*"])

prop("C13", "Fixing solution components yields the reduced problem's solution",
 "Prescribing any subset of solution components of any linear system by any of the provided elimination routines produces a system whose solution has exactly the prescribed values and otherwise satisfies the original equations of the free components. The symmetric variant preserves symmetry and definiteness, and prescribing nothing changes nothing.",
 ["inputs"], "all regular systems, selections of components (none, some, all), prescribed values and scalar types, with any sequence of triplets and duplicates",
 "Tests check one small system each.",
 ["lib/lf/assemble/fix_dof.h"],
 [("FixFlaggedSolutionComponents and variants", "lib/lf/assemble/fix_dof.h")],
 ["FixFlaggedSolutionComponents", "FixFlaggedSolutionCompAlt", "FixSolutionComponentsLse"])

prop("C14", "Quadrature rules integrate all polynomials up to their stated degree",
 "Every quadrature rule handed out for a segment, triangle or quadrilateral and any requested order states a degree at least as large as requested and integrates every polynomial of that degree exactly over the reference element (per variable on quadrilaterals), with all points inside the closed reference element. The Gauss-Legendre and Gauss-Jacobi generators have full Gauss accuracy with distinct points inside the interval and positive weights, and a cached rule is the same rule as a freshly made one.",
 ["inputs", "configurations"], "all reference elements, requested degrees, numbers of points and Jacobi weight exponents of moderate size (about -0.95 to 11), all polynomials up to the stated degree",
 "Tests check monomials for a limited set of degrees; a single wrong digit in one tabulated rule or an off-by-one in a degree selection is only seen by trying every rule against every polynomial up to its degree.",
 ["lib/lf/quad/make_quad_rule.cc", "lib/lf/quad/quad_rules_tria.cc", "lib/lf/quad/gauss_quadrature.cc", "lib/lf/quad/quad_rule_cache.cc", "lib/lf/quad/make_quad_rule_nodal.cc"],
 [("make_QuadRule selection", "lib/lf/quad/make_quad_rule.cc"), ("tabulated rules", "lib/lf/quad/quad_rules_tria.cc"), ("GaussLegendre/GaussJacobi", "lib/lf/quad/gauss_quadrature.cc")],
 ["make_QuadRule", "QuadRuleCache::Get", "make_QuadRuleNodal", "GaussLegendre", "GaussJacobi"])

prop("C15", "Lagrangian reference elements form the nodal basis they claim",
 "The Lagrangian shape functions of degree 1, 2 and 3 on segments, triangles and quadrilaterals are the nodal basis with respect to the advertised evaluation nodes, span the full polynomial space, have gradients that are the derivatives of their values everywhere, and the nodal interpolation reproduces coefficient vectors. Shape functions are associated with vertices, edges and interior such that their traces on a side are the lower-dimensional shape functions of that side and vanish there if associated elsewhere.",
 ["inputs", "configurations"], "all elements and degrees, all points of the reference element, all coefficient vectors, batches of any size; precomputed evaluations at any quadrature rule",
 "Tests check cardinality and sums at a few points; gradients and traces must hold at all points for all shape functions.",
 ["lib/lf/uscalfe/lagr_fe.h", "lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h", "lib/lf/fe/fe_point.h"],
 [("EvalReferenceShapeFunctions / GradientsReferenceShapeFunctions / NodalValuesToDofs", "lib/lf/uscalfe/lagr_fe.h")],
 ["ScalarReferenceFiniteElement interface", "PrecomputedScalarReferenceFiniteElement"])

prop("C16", "Hierarchical reference elements are valid for all degrees and orientations",
 "For every combination of interior degree, edge degrees and edge orientations the hierarchical shape functions on segments, triangles and quadrilaterals are linearly independent polynomials that contain the full space of the smallest degree, with gradients that are the derivatives of their values, and with shape functions of one edge or the interior vanishing on all other sides and vertices. The nodal-values-to-coefficients map is the exact inverse of evaluation at the advertised nodes, and the underlying orthogonal-polynomial helpers satisfy their defining relations.",
 ["inputs", "configurations"], "all degree combinations up to a bound, all orientation patterns, all points and coefficient vectors",
 "Tests use a few uniform degrees with fixed orientations; mixed degrees and orientations exercise separate index arithmetic.",
 ["lib/lf/fe/hierarchic_fe.h", "lib/lf/fe/hierarchic_fe.cc"],
 [("FeHierarchicSegment/Tria/Quad", "lib/lf/fe/hierarchic_fe.h"), ("Legendre/Jacobi helpers", "lib/lf/fe/hierarchic_fe.cc")],
 ["ScalarReferenceFiniteElement interface of FeHierarchic*", "Legendre, ILegendre, Jacobi, IJacobi and derivatives"])

prop("C17", "Finite element functions are continuous and represent polynomials exactly",
 "On every conforming mesh every finite element function of a Lagrangian or hierarchical space (also with entity-dependent degrees) takes a single value on each shared edge and vertex, whichever adjacent cell or edge it is evaluated from, and the reported gradient is the derivative of the function. Interpolating a polynomial contained in the space reproduces it everywhere, and repeated interpolation changes nothing.",
 ["inputs", "configurations"], "all hybrid meshes with arbitrary vertex numbering and cell orientation, all degree assignments, all coefficient vectors (real, complex) and points",
 "Tests check continuity on one test mesh for uniform degree; matching across an edge depends on relative orientation, local numbering and degree assignment.",
 ["lib/lf/fe/hierarchic_scalar_fe_space.h", "lib/lf/fe/hierarchic_fe.h", "lib/lf/uscalfe/fe_space_lagrange_o1.h", "lib/lf/uscalfe/uniform_scalar_fe_space.h", "lib/lf/fe/mesh_function_fe.h", "lib/lf/fe/mesh_function_grad_fe.h", "lib/lf/assemble/dofhandler.cc"],
 [("edge dof ordering", "lib/lf/assemble/dofhandler.cc"), ("shape function layout per entity", "lib/lf/fe/hierarchic_scalar_fe_space.h")],
 ["MeshFunctionFE", "MeshFunctionGradFE", "ScalarFESpace::ShapeFunctionLayout", "NodalProjection"])

prop("C18", "Element matrices are the matrices of their bilinear forms",
 "For every space, cell or edge shape and coefficient the diffusion, reaction, mass and boundary-mass element matrices equal the integrals of the defining bilinear forms whenever the documented or supplied quadrature is exact for them, for scalar, matrix-valued and complex coefficients. They depend linearly on the coefficients, and entities excluded by the selector are reported inactive.",
 ["inputs", "configurations"], "all cells of all meshes (planar or spatial, affine or not), all spaces and degrees, all coefficient functions and quadrature rules",
 "Tests compare a few matrices with constants on fixed cells.",
 ["lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/uscalfe/loc_comp_ellbvp.h", "lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h"],
 [("Eval of the element matrix providers", "lib/lf/*/loc_comp_ellbvp.h")],
 ["DiffusionElementMatrixProvider", "MassElementMatrixProvider", "MassEdgeMatrixProvider", "ReactionDiffusionElementMatrixProvider"])

prop("C19", "Element load vectors are the vectors of their linear forms",
 "For every space, cell or edge shape and source function the volume and boundary element load vectors equal the integrals of source times shape function whenever the documented or supplied quadrature is exact for them, for real and complex data. They depend linearly on the source, sum up to the integral of the source for partitions of unity, and excluded entities are reported inactive.",
 ["inputs", "configurations"], "all cells and edges of all meshes, all spaces and degrees, all source functions and quadrature rules",
 "Tests compare a few vectors on fixed cells.",
 ["lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/uscalfe/loc_comp_ellbvp.h"],
 [("Eval of the load vector providers", "lib/lf/*/loc_comp_ellbvp.h")],
 ["ScalarLoadElementVectorProvider", "ScalarLoadEdgeVectorProvider"])

prop("C20", "Built-in lowest-order matrices and loads follow their formulas on any cell",
 "The ready-made lowest-order Laplace element matrix equals the exact stiffness matrix on every triangle and parallelogram, annihilates constants, is symmetric and positive semi-definite on every admissible cell. The ready-made lowest-order load vector equals the edge-midpoint quadrature of source times hat functions on straight cells, evaluating the source only at points of the cell.",
 ["inputs"], "all admissible triangles and quadrilaterals in any orientation, scaling and position, all source functions, also ones defined only on the cell",
 "Tests compare two fixed cells against stored numbers.",
 ["lib/lf/uscalfe/lin_fe.h", "lib/lf/uscalfe/lin_fe.cc"],
 [("Eval", "lib/lf/uscalfe/lin_fe.*")],
 ["LinearFELaplaceElementMatrix::Eval", "LinearFELocalLoadVector::Eval"])

prop("C21", "Integration, interpolation and boundary data tools match their definition",
 "Integrating a mesh function over selected entities of any codimension equals the sum over exactly the selected entities of its integrals, exactly for polynomials within the requested degree on affine entities. Nodal interpolation restricted by a predicate sets exactly the unknowns of selected entities, and essential boundary data flag exactly the unknowns supported on the selected edges with the values of the interpolant of the data there.",
 ["inputs", "configurations"], "all meshes, selectors (none, some, all), mesh functions (scalar, complex, vector), degrees, spaces",
 "Tests integrate a few functions over whole meshes; selectors and mixed degrees are hardly exercised.",
 ["lib/lf/fe/fe_tools.h"],
 [("IntegrateMeshFunction, NodalProjection, InitEssentialConditionFromFunction", "lib/lf/fe/fe_tools.h")],
 ["IntegrateMeshFunction", "NodalProjection", "InitEssentialConditionFromFunction"])

prop("C22", "Gmsh files are read into the mesh they describe, in every encoding",
 "Any valid Gmsh file describing a two-dimensional hybrid mesh (straight or second order) is read to a mesh with exactly the described nodes, cells, explicitly listed edges and shapes. The text and binary encodings (either byte order) of format 2.2 and 4.1 with the same content yield the same mesh, regardless of numbering gaps, ordering, comments, unknown or auxiliary sections.",
 ["inputs", "configurations"], "all generated file contents: node/element numberings with gaps and permutations, element types, auxiliary sections, all four format variants and byte orders",
 "Tests read a fixed set of files produced by one Gmsh version and mostly check that nothing throws.",
 ["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_file_v2.cc", "lib/lf/io/gmsh_file_v4.cc", "lib/lf/io/gmsh_file_v4_text.cc", "lib/lf/io/gmsh_file_v4_binary.cc", "lib/lf/io/gmsh_file_v4_detail.h"],
 [("V2/V4 parsers", "lib/lf/io/gmsh_file_v*.cc"), ("InitGmshFile", "lib/lf/io/gmsh_reader.cc")],
 ["GmshReader::mesh", "ReadGmshFile"])

prop("C23", "Physical groups of a Gmsh file are attached to the right entities",
 "After reading a file every mesh entity carries exactly the physical group numbers the file assigns to the corresponding element, and membership tests and group listings agree with that. Looking up a group by name or by number, with or without dimension, returns the unique matching group and reports an error when there is none or, without dimension, when it is ambiguous (within one dimension names and numbers are distinct).",
 ["inputs", "configurations"], "all assignments of points, edges and cells to (several) groups, all tables of group names including equal names or numbers in different dimensions, all lookups including absent ones, all format variants",
 "Tests look up a few names in one file.",
 ["lib/lf/io/gmsh_reader.cc", "lib/lf/io/gmsh_reader.h"],
 [("physical number bookkeeping", "lib/lf/io/gmsh_reader.cc")],
 ["GmshReader::PhysicalEntityNr", "IsPhysicalEntity", "PhysicalEntityName2Nr", "PhysicalEntityNr2Name", "PhysicalEntities"])

prop("C24", "VTK output describes the mesh and the data that were written",
 "For every mesh, codimension, approximation order and encoding the written VTK file is well formed and, when read back, contains the mesh's points, cells of the right type and connectivity (higher-order nodes on the true geometry) and every attribute with the value of its data set or mesh function at that point or cell. Entities without data carry the given default value, and duplicate or invalid attribute names are rejected.",
 ["inputs", "configurations"], "all hybrid straight or curved meshes, codim 0/1, orders 1 to 10, ASCII and binary, all attribute types and values",
 "Tests write files without reading them back.",
 ["lib/lf/io/vtk_writer.cc", "lib/lf/io/vtk_writer.h"],
 [("node numbering and cell connectivity", "lib/lf/io/vtk_writer.cc"), ("attribute evaluation", "lib/lf/io/vtk_writer.h")],
 ["VtkWriter output file"])

prop("C25", "Matlab, Python and TikZ exports list the mesh faithfully",
 "The Matlab and Matplotlib exports of any mesh, read back according to their documented layout, give the coordinates, edges and cells of the mesh in its numbering, and the hierarchy export does so for every level. The TikZ export draws every selected entity exactly once at its true position, with the labels requested by the flags and only those.",
 ["inputs", "configurations"], "all hybrid meshes, all TikZ flag combinations and selectors, all refinement histories",
 "Tests only check that a file is written.",
 ["lib/lf/io/write_matlab.cc", "lib/lf/io/write_matplotlib.cc", "lib/lf/io/write_tikz.cc", R+"refutils.cc"],
 [("writers", "lib/lf/io/write_*.cc")],
 ["writeMatlab", "writeMatplotlib", "writeTikZ", "refinement::WriteMatlab"])

prop("C26", "Damaged Gmsh input is rejected or read, never a crash or corruption",
 "Feeding the Gmsh file parser a truncated, bit-flipped or token-mutated file of any supported variant either yields file contents or is rejected with an error report (an exception or a failed library assertion). It never crashes otherwise, hangs, reads or writes out of bounds; a file cut before the end of its elements or with a wrong number of table entries is not accepted, and repeated parsing of the same bytes gives the same outcome.",
 ["fault_sequences", "inputs"], "all truncations and mutations of valid files of all four variants",
 "Tests read valid files only.",
 ["lib/lf/io/gmsh_file_v2.cc", "lib/lf/io/gmsh_file_v4.cc", "lib/lf/io/gmsh_file_v4_text.cc", "lib/lf/io/gmsh_file_v4_binary.cc", "lib/lf/io/gmsh_reader.cc"],
 [("header detection and grammars", "lib/lf/io/gmsh_file_v*.cc")],
 ["ReadGmshFile"])

prop("C27", "Discrete solutions reproduce exact solutions contained in the space",
 "For every mesh and every Lagrangian or hierarchical space, assembling a diffusion-reaction problem with constant coefficients on straight affine cells, imposing Dirichlet, Neumann or Robin data and solving returns exactly the interpolant of the solution whenever the exact solution lies in the space. The assembled matrix is independent (up to the permutation of unknowns) of the numbering and orientation of nodes, edges and cells of the mesh.",
 ["inputs", "configurations"], "all hybrid affine meshes, spaces, constant coefficients, boundary splits and polynomial solutions",
 "Tests and examples run a few fixed problems and look at convergence rates; a defect in the interplay of numbering, orientation, local matrices, boundary terms and elimination shows only for specific meshes.",
 ["lib/lf/assemble/assembler.h", "lib/lf/assemble/fix_dof.h", "lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/uscalfe/loc_comp_ellbvp.h", "lib/lf/fe/fe_tools.h", "lib/lf/assemble/dofhandler.cc"],
 [("whole assembly pipeline", "lib/lf/{assemble,fe,uscalfe}")],
 ["solution vector / MeshFunctionFE"])

prop("C28", "Product-space unknowns and element matrices are the blocks of their components",
 "In the product spaces of the DPG module the unknowns of each component are numbered contiguously after those of the previous components with the same relative order as the component alone, and every query by component agrees with the full space. Element matrices and vectors, normals, boundary quadrature, edge signs and inflow/outflow flags equal direct integration or geometric definition on every cell.",
 ["inputs", "configurations"], "all hybrid meshes, all combinations of continuous, discontinuous, flux and trace components of all degrees, all coefficient functions",
 "Tests use selected component combinations on one mesh.",
 ["projects/dpg/product_dofhandler.cc", "projects/dpg/product_fe_space.h", "projects/dpg/product_fe_space_factory.h", "projects/dpg/loc_comp_dpg.h", "projects/dpg/product_element_matrix_provider.h", "projects/dpg/product_element_vector_provider.h", "projects/dpg/dpg_element_matrix_provider.h", "projects/dpg/dpg_element_vector_provider.h", "projects/dpg/dpg_tools.cc", "projects/dpg/dpg_tools.h"],
 [("ProductUniformFEDofHandler", "projects/dpg/product_dofhandler.cc"), ("sub element providers", "projects/dpg/loc_comp_dpg.h")],
 ["ProductUniformFEDofHandler", "ProductElementMatrixProvider::Eval", "DpgElementMatrixProvider::Eval", "OuterNormals", "PrescribedSignProvider"])

prop("C29", "Stokes assembly, velocity recovery and norms follow the discrete formulation",
 "On every triangular mesh the interior-penalty Stokes element matrices and vectors equal their defining integrals independently of vertex order, the assembled boundary-fixed system is symmetric with vanishing boundary potential, and the recovered velocity is the piecewise constant curl of the potential. The reported L2 and broken-gradient norms equal direct computation of their defining integrals and jumps.",
 ["inputs", "configurations"], "all triangular meshes with arbitrary orientation, penalty parameters, forces, Dirichlet data and coefficient vectors",
 "Tests use single fixed triangles or two-triangle meshes.",
 ["projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.cc", "projects/ipdg_stokes/assemble/piecewise_const_element_vector_provider.cc", "projects/ipdg_stokes/assemble/build_system_matrix.cc", "projects/ipdg_stokes/assemble/offset_function.cc", "projects/ipdg_stokes/post_processing/norms.h", "projects/ipdg_stokes/post_processing/solution_to_mesh_data_set.cc", "projects/ipdg_stokes/mesh/utils.cc"],
 [("element providers", "projects/ipdg_stokes/assemble"), ("norms", "projects/ipdg_stokes/post_processing/norms.h")],
 ["Eval", "buildSystemMatrixNoFlow", "extractVelocity", "L2norm", "DGnorm"])

prop("C30", "Reference elements describe one consistent cell topology",
 "For every reference element the numbers, types and indices of sub-entities, nested sub-entities, node coordinates and identifiers are mutually consistent: every sub-entity reached through an intermediate one is the one listed directly, and sides connect the documented corners in order. Checked number conversions return the same value or report an error.",
 ["configurations", "inputs"], "all reference elements, codimensions and sub-entity indices; all numeric values and type pairs for conversions",
 "Tests look at selected entries of the tables.",
 ["lib/lf/base/ref_el.h", "lib/lf/base/ref_el.cc", "lib/lf/base/invalid_type_exception.h"],
 [("topology tables", "lib/lf/base/ref_el.h")],
 ["RefEl member functions"])

prop("C31", "Diagnostic printing works for every object at every verbosity",
 "Printing a reference element, shape, entity, mesh, degree-of-freedom table, quadrature rule or matrix at any verbosity level finishes without error for every object and does not alter it. The output names the object and reports its true sizes, and higher levels list every entity or entry.",
 ["inputs", "configurations"], "all objects of the listed kinds, all verbosity levels",
 "Tests print a few objects at the default level.",
 ["lib/lf/base/ref_el.cc", G+"print_info.cc", M+"utils/print_info.cc", "lib/lf/assemble/dofhandler.cc", "lib/lf/quad/quad_rule.cc"],
 [("PrintInfo overloads", "lib/lf/**/print_info.cc")],
 ["PrintInfo / operator<<"])

prop("C32", "Splitting time stepping reproduces its linear-algebra definition",
 "The reaction-diffusion splitting module assembles exactly the stiffness, mass and boundary matrices of its formulation, its diffusion step equals the two-stage implicit scheme with those matrices for the full and the half step, and spatially constant equilibria are kept for all times. Local quadrature over selected entities equals direct integration.",
 ["inputs", "histories"], "all meshes, coefficients, boundary data, step numbers, initial states",
 "There are no tests of this module.",
 ["projects/fisher_kpp/strangsplitting.h", "projects/fisher_kpp/strangsplitting.cc"],
 [("diffusionEvolutionOperator", "projects/fisher_kpp/strangsplitting.cc"), ("assembleGalerkinMatrices", "projects/fisher_kpp/strangsplitting.h")],
 ["StrangSplit::diffusionEvolutionOperator", "StrangSplit::Evolution", "assembleGalerkinMatrices", "localQuadFunction"])

prop("C33", "Local refinement does not degrade the shapes of triangles",
 "However often and wherever a mesh with straight sides is refined locally or regularly, the triangles do not degenerate: every triangle descending from a triangle by copying, regular refinement or the bisection-type patterns is similar to one of the few triangles that newest-vertex bisection, started at the refinement edge of the ancestor, can produce. Families start on the coarsest mesh, at the children of quadrilaterals and at barycentric refinement, with a longest edge as refinement edge.",
 ["histories", "inputs"], "all initial meshes with straight sides and all finite refinement histories with arbitrary edge markings",
 "Tests perform one or two refinement steps and never look at shapes; degeneration needs several generations of particular patterns at one place.",
 [R+"mesh_hierarchy.cc", R+"mesh_hierarchy.h"],
 [("inheritance of refinement edges in PerformRefinement", R+"mesh_hierarchy.cc"), ("LongestEdge", R+"mesh_hierarchy.cc")],
 ["MeshHierarchy::RefineMarked", "MeshHierarchy::RefineRegular", "MeshHierarchy::RefinementEdges"])

prop("C34", "Matrices, mesh functions and refinement levels give one discrete calculus",
 "For every affine hybrid mesh and every Lagrangian or hierarchical space the numbers computed from assembled matrices and vectors agree with the integrals of the mesh functions made from the same coefficient vectors: energies, norms, loads, over cells and over any selected edges. Across refinement levels the matrices and vectors of a coarse space equal those of a finer space containing it restricted by prolongation.",
 ["inputs", "configurations", "histories"], "all affine hybrid meshes and refinement histories, all spaces, coefficient vectors, constant coefficients, affine sources and edge selections",
 "Each module has its own tests; nothing checks that assembly, integration, finite element functions, mesh function arithmetic and prolongation use the same shape functions, orientations, numberings and measures.",
 ["lib/lf/assemble/assembler.h", "lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/fe/fe_tools.h", "lib/lf/fe/mesh_function_fe.h", "lib/lf/fe/mesh_function_grad_fe.h", "lib/lf/fe/prolongation.h", "lib/lf/mesh/utils/mesh_function_binary.h", "lib/lf/uscalfe/loc_comp_ellbvp.h"],
 [("assembly", "lib/lf/assemble/assembler.h"), ("integration of mesh functions", "lib/lf/fe/fe_tools.h"), ("prolongation", "lib/lf/fe/prolongation.h")],
 ["AssembleMatrixLocally", "IntegrateMeshFunction", "prolongate", "MeshFunctionFE", "MeshFunctionGradFE"])

prop("C35", "Timers and log formatting report what happened",
 "For every history of starting, stopping, resuming and copying a timer the elapsed wall, user and system times, queried or formatted at any moment, are those during which it ran. An automatic timer reports the time since its construction on request and exactly once at the end, to the chosen stream or logger and level in the chosen format. Multi-line log messages are indented behind the prefix without losing text.",
 ["histories", "inputs"], "all operation histories of timers with arbitrary pauses and computations, all format strings, prefixes and messages",
 "Tests time one fixed sleep and look at one fixed message.",
 ["lib/lf/base/timer.h", "lib/lf/base/timer.cc", "lib/lf/base/spdlog_utils.h", "lib/lf/base/spdlog_utils.cc"],
 [("Timer", "lib/lf/base/timer.cc"), ("AutoTimer", "lib/lf/base/timer.cc"), ("LineFeedFormatter", "lib/lf/base/spdlog_utils.cc")],
 ["Timer::Elapsed", "Timer::Format", "AutoTimer::Report", "LineFeedFormatter::format"])

prop("C36", "Objects keep their meaning when copied, moved or built from temporaries",
 "Copies of geometries, quadrature rules, sparse matrices, data sets and mesh functions equal their source and are independent of it. Rule caches, dof handlers, finite element spaces, element providers and data sets that are moved, also over existing ones on other meshes, behave as before. Mesh functions, their expressions and transfers and element providers own their operands, so they may be built from temporaries, and keep the spaces and meshes they need alive. Meshes of a hierarchy may outlive it.",
 ["histories", "inputs"], "all geometries, rules, matrices, data sets, dof handlers, spaces, mesh function expressions and providers; sequences of copying, moving, assigning, changing and destroying",
 "Tests keep every object in the scope in which it was made; dangling references and shared state only show when objects are passed around and their sources changed or destroyed.",
 ["lib/lf/fe/mesh_function_fe.h", "lib/lf/fe/hierarchic_scalar_fe_space.h", "lib/lf/fe/loc_comp_ellbvp.h", "lib/lf/refinement/mesh_function_transfer.h", "lib/lf/mesh/utils/mesh_function_binary.h", "lib/lf/mesh/utils/codim_mesh_data_set.h", "lib/lf/assemble/coomatrix.h", "lib/lf/assemble/dofhandler.h", "lib/lf/quad/quad_rule_cache.h", "lib/lf/uscalfe/uniform_scalar_fe_space.h", "lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h"],
 [("spaces", "lib/lf/fe/hierarchic_scalar_fe_space.h"), ("mesh functions", "lib/lf/fe/mesh_function_fe.h"), ("transfer", "lib/lf/refinement/mesh_function_transfer.h"), ("rule cache", "lib/lf/quad/quad_rule_cache.h")],
 ["HierarchicScalarFESpace", "MeshFunctionFE", "MeshFunctionTransfer", "MeshFunctionBinary", "COOMatrix", "QuadRuleCache", "CodimMeshDataSet"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
