T31 = "The existing tests evaluate a handful of fixed meshes, coefficients and random states; "
prop("C01", "Coupling subdomains reproduces the discretisation of the undecomposed domain",
 "Splitting a mesh into subdomains and coupling them through their interfaces yields exactly the interior-penalty operator (scalar and tensor diffusion, vector diffusion, elasticity, velocity-pressure flux) that the undecomposed mesh has on the same faces. This holds however elements are distributed over subdomains, whichever side of a face is numbered first, and for every material coefficient and penalty.",
 ["inputs", "configurations"], "every partition of the mesh into subdomains, every coefficient field, symmetry parameter and penalty",
 T31 + "none compares a decomposed with an undecomposed operator entry by entry, and the convergence tests need libROM and do not build here.",
 ["src/interfaceinteg.cpp", "src/interface_form.cpp", "src/topology_handler.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp"],
 [("interface integrators", "AssembleInterfaceMatrix of the diffusion, vector diffusion, elasticity and normal-flux integrators"), ("assembly over ports", "InterfaceForm::AssembleInterfaceMatrices, MixedInterfaceForm::AssembleInterfaceMatrices"), ("face pairing and orientation", "SubMeshTopologyHandler::BuildInterfaceInfos, TopologyHandler::GetInterfaceTransformations")],
 ["2x2 quads (all partitions into 2 and into 3), 4 triangles (all partitions into 2), 2x2x1 hexes (all partitions into 2), 6 tets, distorted concrete geometry", "orders 1 and 2 (3 in thorough)", "symbolic: sigma/alpha in [-1,1], kappa in [1,20], per-subdomain coefficient in [0.5,2] plus linear variation, every entry of a 2x2 tensor in [0.25,2]"],
 ["larger meshes, curved and nonconforming meshes, order above 3, mesh geometry itself (concrete)"])
prop("C02", "Coupling residual and Jacobian are the sum over all subdomain faces",
 "The coupling residual of a state is the sum, over every face shared by two subdomains and every registered coupling term, of that term's face integral, added to the caller's vector on the unknowns of the two subdomains involved. The coupling Jacobian is the exact derivative of that residual and is added to the caller's matrices; the state is left unchanged.",
 ["inputs", "configurations", "histories"], "every state, every partition of the mesh, every combination of coupling terms, every previous content of the output",
 T31 + "the gradient tests use one mesh, one flux and finite differences of limited accuracy, and start from zero outputs.",
 ["src/interface_form.cpp", "src/interfaceinteg.cpp", "src/topology_handler.cpp"],
 [("residual", "InterfaceForm::InterfaceAddMult / AssembleInterfaceVector"), ("Jacobian", "InterfaceForm::InterfaceGetGradient / AssembleInterfaceGrad"), ("nonlinear couplings", "InterfaceDGTemamFluxIntegrator, DGLaxFriedrichsFluxIntegrator interface methods")],
 ["2x2 quads, 4 triangles (all partitions into 2), hexes, 6 tets; orders 1-2", "every state unknown symbolic in [-1,1] (Lax-Friedrichs: [0.5,1], either side faster), coefficients symbolic, previous output symbolic"],
 ["Lax-Friedrichs states with sign changes inside an element, larger meshes"],
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified", "Lax-Friedrichs: inputs where a denominator of the flux gradient vanishes are outside the property (the flux is not differentiable there)"])
prop("C03", "Nonlinear flow terms: value is the weak form, Jacobian its exact derivative",
 "Each nonlinear flow term (convection, conservative flux, skew-symmetric convection, its face flux, Lax-Friedrichs flux inside, at outflow and at prescribed boundaries) evaluates to the quadrature of its weak form for the given integration rule, coefficient and prescribed velocity. Its Jacobian is the exact derivative of that value at every state, including rest, and the skew form produces no energy.",
 ["inputs"], "every state, coefficient and prescribed velocity", T31 + "finite differences on random states bound the Jacobian error only loosely and never vary the prescribed velocity, the rule or a fluid at rest.",
 ["src/nonlinear_integ.cpp", "src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp"],
 [("domain terms", "AssembleElementVector/AssembleElementGrad"), ("face terms", "AssembleFaceVector/AssembleFaceGrad of the Temam and Lax-Friedrichs fluxes"), ("flux", "ComputeFluxDotN/ComputeGradFluxDotN")],
 ["one element or one face pair: triangle, quad, tet (thorough), distorted geometry, orders 1-2", "every unknown symbolic in [-1,1] (Lax-Friedrichs: one sign per component and element, all sign patterns, magnitude in [0.5,1]); coefficients symbolic"],
 ["order above 2, Lax-Friedrichs states crossing zero inside an element"],
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified", "Lax-Friedrichs: inputs where a denominator of the flux gradient vanishes are outside the property (the flux is not differentiable there)"])
prop("C04", "Sampled (hyper-reduced) evaluation is the projection of the full evaluation",
 "The pointwise contributions of a nonlinear term add up to its full element or face integral, for residual and Jacobian alike, and scale with the quadrature weight. The fast evaluation at a sample point on a reduced basis equals the projection of that pointwise contribution onto the basis, adds to the caller's result, and does not depend on what the term was used for before.",
 ["inputs", "histories"], "every reduced state, sample point and weight, basis, previous output, and previous use of the same term object",
 T31 + "the hyper-reduction tests need libROM and do not build here; none reuses one term across interior, boundary and interface faces.",
 ["src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp", "include/hyperreduction_integ.hpp"],
 [("pointwise pieces", "AssembleQuadratureVector/AssembleQuadratureGrad"), ("fast evaluation", "AddAssembleVector_Fast/AddAssembleGrad_Fast")],
 ["one element, face or interface: triangle, quad; order 1 (2 and tets in thorough); 1-3 basis vectors with some symbolic entries; first three sample points", "reduced state, weight, coefficient, prescribed velocity, previous output symbolic"],
 ["bases with more than 3 vectors, order above 2"],
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified"])
prop("C05", "Weak boundary conditions are consistent and loads are the integrals they denote",
 "For boundary data that is the trace of a discrete field, the boundary operator applied to the field minus the boundary load leaves exactly the natural flux term, with or without penalty. Every boundary load equals the integral of its data over the boundary, is the same through faces or boundary elements, and a mixed form is the sum of its domain part, every interior face and exactly the marked boundary faces.",
 ["inputs", "configurations"], "every boundary datum linear in space, coefficient, penalty, boundary face and choice of marked boundaries",
 T31 + "the tests that use these forms (manufactured solutions) need libROM and do not build here, and a convergence rate tolerates wrong constants.",
 ["src/dg_linear.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp"],
 [("boundary loads", "AssembleRHSElementVect of the Dirichlet, normal, stress, Temam, Lax-Friedrichs loads"), ("boundary operator", "DGVectorDiffusionIntegrator::AssembleFaceMatrix"), ("mixed form", "MixedBilinearFormDGExtension::Assemble, DGNormalFluxIntegrator")],
 ["one boundary face (each of the first 4) of a triangle, quad, tet; orders 1-2; 2-quad / 4-triangle meshes with all 16 marker combinations", "data coefficients symbolic in [-1,1], weights and viscosities in [0.5,2], alpha in [-1,1], kappa in [1,20] and 0"],
 ["nonlinear boundary data, 1D, curved boundaries"])
prop("C06", "Dense, sparse and block projections compute R^T A P",
 "Projecting a vector or a dense, sparse or block operator onto reduced bases yields exactly the transposed test basis times the operator times the trial basis, block by block, with the advertised sizes and accumulation behaviour, and leaves the inputs unchanged. Sub-matrix products, concatenations of blocks and their global forms agree with the plain matrix arithmetic.",
 ["inputs", "configurations"], "every matrix entry and basis entry, every block layout and dof subset within the bounds",
 T31 + "they check two products with random entries.",
 ["src/linalg_utils.cpp", "include/linalg_utils.hpp"],
 [("projection", "RtAP overloads"), ("block products", "MatrixBlocks::Mult/MultTranspose, CreateBlockMatrix"), ("sub-matrix products", "MultSubMatrix, AddMultTransposeSubMatrix, DenseMatrix helpers")],
 ["matrices up to about 4x4, up to 2x3 blocks, bases of 1-3 columns", "every entry symbolic in [-1,1]"],
 ["larger sizes; HYPRE parallel matrices"])
prop("C07", "Third-order tensor contractions compute the sums they denote",
 "Contracting a third-order tensor with one or two vectors gives the corresponding sums over all indices, with the stated scaling, accumulation and axis, for any sizes. The tensor form of a quadratic term and its Jacobian are consistent.",
 ["inputs"], "every tensor, vector, scale and previous output", "No existing test covers these kernels, which carry the reduced convection operator.",
 ["src/linalg_utils.cpp"], [("contractions", "TensorContract, TensorAddScaledContract, TensorMult, TensorAddMultTranspose, TensorAddScaledMultTranspose, TensorAddMultOnJ")],
 ["sizes 2x2x2, 1x3x2, 2x1x3, 3x2x1", "every entry symbolic in [-1,1]"], ["larger sizes (the loops are uniform in size)"])
prop("C08", "Orthonormalisation yields an orthonormal basis of the same span",
 "Orthonormalising a set of basis vectors, alone or against another set, yields vectors that are mutually orthogonal, of unit length, orthogonal to the given set, and that span the same space as the input. Columns keep their order.",
 ["inputs"], "every full-rank input within the bounds", "One test checks one random matrix.",
 ["src/linalg_utils.cpp"], [("Gram-Schmidt", "modifiedGramSchmidt, Orthonormalize")],
 ["up to 3 vectors of length 3-4", "selected entries symbolic; inputs with non-vanishing norms"], ["rank-deficient inputs, larger bases"],
 assumptions=["square-root and inverse terms whose arguments agree coefficientwise to 1e-12 are identified"])
prop("C09", "Block smoothers are the block-triangular solves they stand for",
 "A forward (backward) block Gauss-Seidel sweep solves the block lower (upper) triangle of its operator against the right-hand side minus the rest applied to the previous iterate, skipping absent blocks; symmetric and repeated smoothing compose these sweeps from zero or, in iterative mode, from the given vector. Block Jacobi solves the diagonal blocks. Other Jacobi variants are refused. All use the operator set last.",
 ["inputs", "configurations"], "every operator with invertible diagonal blocks, every pattern of absent blocks, right-hand side and iterate",
 "One test applies the default smoother to one random matrix from a zero start; other types, iterations and a changed operator are never run.",
 ["src/block_smoother.cpp", "include/block_smoother.hpp"],
 [("sweeps", "BlockGSSmoother::BlockGaussSeidelForw, BlockGaussSeidelBack, Mult"), ("Jacobi", "BlockDSmoother::Mult"), ("operator", "BlockSmoother::BlockSmoother, SetOperator")],
 ["2-3 blocks of size 1-2 (3 in thorough), every subset of absent off-diagonal blocks for three 1x1 blocks, up to 2 iterations", "diagonal entries symbolic in [1,2], other entries of diagonal blocks in [-0.5,0.5], off-diagonal blocks and vectors in [-1,1]"],
 ["singular or ill-conditioned diagonal blocks, larger systems"])
prop("C10", "What is stored in an HDF5 file is read back unchanged",
 "Attributes, strings, basis tags, arrays, vectors, dense matrices, tensors, sparse and block matrices and sample lists written to an HDF5 file read back equal in shape, entries and order, whatever the destination held before; absent blocks stay absent, and data of another kind or shape is refused. Writing leaves the data unchanged. The layout in the file stays the one other programs read.",
 ["inputs", "histories"], "every content, shape and pattern of present, empty and absent blocks within the bounds",
 "The existing tests store one random example of each of a few types; block matrices, tensors, samples and refusals are not covered.",
 ["src/hdf5_utils.cpp", "include/hdf5_utils.hpp", "src/hyperreduction_integ.cpp"],
 [("datasets", "hdf5_utils::ReadDataset, WriteDataset overloads"), ("matrices", "ReadSparseMatrix, WriteSparseMatrix, ReadBlockMatrix, WriteBlockMatrix"), ("attributes", "ReadAttribute, WriteAttribute"), ("samples", "EQPElement::Save, Load")],
 ["arrays to 5 entries, matrices and 2D arrays to 3x3, tensors of 2x3x2 in every turn, every sparsity pattern of a 2x3 matrix, every mix of absent, empty and present blocks (3x3 partly, 2x2, 1x3, 3x1), sample lists to 3", "all stored reals and integers symbolic (travelling through the file bit for bit), strings from a fixed list of lengths 0 to 55"],
 ["empty matrices, vectors and tensors; conversions between numeric types by the HDF5 library; failing disks"], ints=True)
prop("C11", "Saved component operators load into any composition of the components",
 "Component-wise reduced operators (domain, mass, every boundary, every reference port) saved by one composition load into another composed of the same components, whatever order it lists components and ports in and whichever part it uses: each operator reaches the component, boundary or port it belongs to, blockwise unchanged. A file that lacks a needed operator is refused.",
 ["configurations", "histories"], "every pair of saving and loading compositions within the bounds, every content",
 "No existing test that runs here covers these classes.",
 ["src/rom_element_collection.cpp", "include/rom_element_collection.hpp"],
 [("saving", "ROMLinearElement::SaveCompBdrElems, SaveBdrElems, SaveItfaceElems"), ("loading", "ROMLinearElement::LoadCompBdrElems, LoadBdrElems, LoadItfaceElems")],
 ["compositions of up to 5 meshes of 3 components on a grid with up to 5 reference ports, four orders of components, two of ports, parts of them; 1-2 variables, separate or not; three patterns of absent blocks", "entries symbolic in [-1,1]"],
 ["tensor elements (saving them is not implemented in the code), 3D components (the code does not look at the dimension)"])
prop("C12", "Options read back as configured, with forced input taking precedence",
 "Every option reads as it was last set, at any depth of the tree and for every type; a fallback is used exactly when the option is absent, a missing required option is refused, and reading never changes the configuration. Key=value pairs forced on the command line override the file in their order, malformed pairs are refused, and every rank gets the same configuration. Looking up a list yields its first matching entry.",
 ["inputs", "histories"], "every value, history of settings, list content and forced input within the bounds",
 "No existing test covers the input parser; every driver relies on it.",
 ["src/input_parser.cpp", "include/input_parser.hpp"],
 [("tree", "InputParser::FindNodeFromDict, SetOptionInDict, GetOptionFromDict, GetRequiredOptionFromDict"), ("forced input", "InputParser::OverwriteOption"), ("lists", "LookUpFromDict, convert<Array>, convert<Vector>, convert<vector<string>>")],
 ["histories of up to 3 settings over 6 paths up to depth 3; lists of up to 3 entries; up to 2 forced pairs; files of up to 45 characters on 2 ranks", "every number symbolic (reals in [-100,100], integers in [-1000000,1000000])"],
 ["parsing of YAML text and number formatting (yaml-cpp, native)", "more than two ranks"], ints=True, wrap=["exit", "MPI_Initialized", "MPI_Comm_rank", "MPI_Comm_size", "MPI_Bcast"])
prop("C13", "Parameter samples cover their configured range evenly",
 "A sampled parameter takes its minimum at the first sample and its maximum at the last, with equal steps in between (equal ratios on a logarithmic scale, whole steps for integers), and never leaves its range, whether on a grid or drawn at random. Each sample changes only its own option of the configuration. File sequences name every number of the range once. An index outside the sample or an incomplete description is refused.",
 ["inputs", "histories"], "every range, sample size within the bounds, position in the grid, random draw and earlier use",
 "No existing test covers these classes; the workflow tests that use them need libROM and do not build here.",
 ["src/parameter.cpp", "include/parameter.hpp"],
 [("real parameters", "DoubleParam::SetParam, SetRandomParam"), ("integer parameters", "IntegerParam::GetInteger, GetRandomInteger"), ("file sequences", "FilenameParam::SetParam, ParseFilenames")],
 ["sample sizes 1-5 (log scale 1-4)", "real ranges symbolic within [-4,12] (log scale: minimum in [0.25,4], maximum in [0.25,64]); integer ranges symbolic within [-1000,3000]; random draws symbolic", "file numbers 0-5"],
 ["the pseudo-random generator itself (a draw is any number of [0,1), or any integer of the requested range)", "larger sample sizes"], ints=True, wrap=["_Z13UniformRandomv", "_Z13UniformRandomRKiS0_", "exit"])
prop("C14", "Decomposition covers the domain once and pairs its cut faces",
 "Decomposing a mesh by element attribute puts every element in exactly one subdomain, and every face between two subdomains in exactly one port, joining exactly those two subdomains. Paired boundary elements describe the same points seen from either side. Outer boundaries keep their attributes, ports get attributes of their own, and gathering subdomain fields reproduces each global field.",
 ["inputs", "configurations"], "every assignment of elements to subdomains, vertex position, boundary attribute and field value",
 "The existing tests decompose a handful of fixed meshes and look only at the solutions on them.",
 ["src/topology_handler.cpp", "include/topology_handler.hpp"],
 [("subdomains and ports", "SubMeshTopologyHandler::SubMeshTopologyHandler, BuildInterfaceInfos, BuildSubMeshBoundary2D"), ("pairing of sides", "FindParentInterfaceInfo, TopologyHandler::GetInterfaceTransformations"), ("gathering", "SubMeshTopologyHandler::TransferToGlobal")],
 ["every partition of 2x2, 3x1 quads, 4 triangles, 2x2x1 and 3x1x1 hexes, 6 tets into 2-4 subdomains; one or two uniform refinements; with and without decomposition", "vertex coordinates symbolic (+-0.05 around a distorted position), boundary attributes of three boundary elements in 1..5, field values symbolic in [-1,1]"],
 ["nonconforming meshes, element attributes with gaps, meshes with curvature (their nodes are copied by MFEM)"])
prop("C15", "A domain composed of components is assembled as configured",
 "Each mesh of a composed domain is its component moved by its configured rotation and translation. Ports pair every boundary element of one side with the one that coincides with it on the other, however they are described: input file, global file or stored port file; sides that do not match within the threshold are refused. Boundary attributes follow the configured map, and coupling equals that of one undivided mesh, also when assembled per reference port.",
 ["inputs", "configurations"], "every placement, numbering and orientation of the component meshes, every description of a port",
 "The existing tests read two fixed configurations and compare solutions; none covers port files, the gap threshold or differently numbered components.",
 ["src/component_topology_handler.cpp", "include/component_topology_handler.hpp", "src/interface_form.cpp"],
 [("placement and attributes", "ComponentTopologyHandler::SetupMeshes, ReadBoundariesFromFile, SetupBdrAttributes, ReadPortsFromFile"), ("ports", "BuildPortDataFromInput, ReadPortDict, WritePortDataToFile, ReadPortDatasFromFile, SetupReferenceInterfaces"), ("coupling at ports", "InterfaceForm::AssembleInterfaceMatrixAtPort, MixedInterfaceForm::AssembleInterfaceMatrixAtPort")],
 ["strips of three meshes of two components and 2x2 lattices of one: quads, triangles, hexes, tets, elements turned and numbering reversed; up to two refinements", "translations and rotations symbolic, offset of a port symbolic around the threshold, penalty, symmetry parameter and coefficients symbolic"],
 ["coupling of rotated components (assembled in the frame of the reference component), 1D, curved components, periodic ports of a mesh with itself (refused)"],
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified"])
prop("C16", "Problem parameters reach exactly the data they name",
 "Every parameter of every problem is addressed by one name and one index, and setting it (by name, by index, or as a single run from the configuration) changes exactly the source, boundary, initial or material data its formula mentions, at every point and time; the rest keeps its value or documented default. Each boundary attribute is listed once with its condition; for flow past arrays the mean flow decides inflow and outflow sides. Unknown problems, names and boundary indices are refused.",
 ["inputs", "histories"], "every parameter value, point, time and order of setting within the bounds",
 "No existing test covers the problem definitions; the drivers that use them need libROM and do not build here.",
 ["src/parameterized_problem.cpp", "include/parameterized_problem.hpp"],
 [("problem definitions", "InitParameterizedProblem and the constructors of the 17 problems"), ("setting", "ParameterizedProblem::SetParams, SetSingleRun, PoissonComponent::SetBattr, FlowPastArray::SetBattr"), ("data", "namespace function_factory")],
 ["all 17 problems, 1-3 dimensions where the formula allows", "point, time and parameters symbolic (points in [-2,2], parameters in [0.25,2], mean flow in [-1,1], boundary index in [-3,8])", "poisson_spiral: six points, three values of L and s, width and wave number symbolic"],
 ["other points of poisson_spiral", "parameter values outside the ranges"], wrap=["exit"],
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified"])
STUB = "libROM and MUMPS are not installed: their containers, files and solvers are modelled (engine/librom); SVD, NNLS and factorisations return values given by the check"
prop("C17", "Reduced nonlinear forms evaluate and train on exactly their sample points",
 "A reduced nonlinear form evaluates to the weighted sum, over its sampled quadrature points, of each registered term's pointwise contribution projected on the basis; its Jacobian is the exact derivative; the precomputed evaluation gives the same values; nothing depends on earlier evaluations. Training poses, per term, one equation per snapshot and basis vector whose exact right-hand side is the fully integrated term, within the requested tolerance, and turns each non-negligible weight into one sample of the right element or face, point and weight. Samples survive storing, loading and sharing; sampling outside a term's faces is refused.",
 ["inputs", "configurations", "histories"], "every reduced state, weight, coefficient, previous output, solution of the training system",
 "The existing tests of these forms need libROM and do not build here; they use one random mesh and state each.",
 ["src/rom_nonlinearform.cpp", "include/rom_nonlinearform.hpp", "src/hyperreduction_integ.cpp"],
 [("evaluation", "ROMNonlinearForm::Mult, GetGradient, PrecomputeCoefficients"), ("training", "ROMNonlinearForm::TrainEQP, SetupEQPSystemFor*Integrator, TrainEQPForIntegrator"), ("samples", "Update*Sampling, Set*EQPElems, Save/LoadEQPForIntegrator, SaveDomainEQPCoords")],
 ["2 triangles, 2-3 quads (hexes in thorough), order 1, discontinuous and continuous spaces; 1-3 basis vectors with up to 2 symbolic entries; up to 4 samples per term, 4 terms; up to 3 snapshots", "reduced state, coefficients, some weights, some snapshot entries, previous output symbolic"],
 ["larger meshes and bases; the solution of the least-squares problem itself"], rom=True,
 assumptions=["square-root, inverse and trigonometric terms whose arguments agree coefficientwise to 1e-12 are identified", "Lax-Friedrichs: inputs where a denominator of the flux gradient vanishes are outside the property", STUB])
prop("C18", "Reduced interface forms couple subdomains through exactly their sampled points",
 "A reduced interface form adds to its output the weighted sum, over every port and its sampled quadrature points, of each term's pointwise contribution on the two sides, projected on the bases of the two subdomains; its Jacobian blocks are the exact derivative; the precomputed evaluation gives the same values. Every port uses the samples of its reference port; ports without samples contribute nothing. Training a reference port poses one equation per snapshot pair and basis vector of either side whose exact right-hand side is the fully integrated term, and its samples survive storing and loading into another composition of the components.",
 ["inputs", "configurations", "histories"], "every reduced state, weight, coefficient, previous output, solution of the training system",
 "The existing tests of these forms need libROM and do not build here; they use one random decomposition and state each.",
 ["src/rom_interfaceform.cpp", "include/rom_interfaceform.hpp", "src/interfaceinteg.cpp"],
 [("evaluation", "ROMInterfaceForm::InterfaceAddMult, InterfaceGetGradient, PrecomputeCoefficients"), ("training", "ROMInterfaceForm::TrainEQPForRefPort, SetupEQPSystem, TrainEQPForIntegrator"), ("samples", "UpdateInterFaceIntegratorSampling, Save/LoadEQPForIntegrator, SetBasisAtComponent")],
 ["compositions of 3-4 meshes of 1-2 components and a decomposition into 3 subdomains, quads and triangles (hexes in thorough), order 1; 1-2 basis vectors per component; up to 4 samples per port and term, 2 terms; 3 snapshot pairs", "reduced state, coefficients, some weights, some snapshot entries, previous outputs symbolic"],
 ["larger meshes and bases; states in which the stronger side of a port changes; the solution of the least-squares problem itself"], rom=True,
 assumptions=["square-root and inverse terms whose arguments agree coefficientwise to 1e-12 are identified", "inputs where a denominator of the flux gradient vanishes are outside the property", STUB])
prop("C19", "The reduced system is the projection of the full one, block by block",
 "Subdomain and variable blocks of the reduced model are numbered consistently in both orderings, each sized and represented by the basis of its component and variable, with the number of vectors asked for in the input. Every way of projecting vectors and operators (reference block, subdomain, interface, variable pair, whole system) yields exactly the basis-transpose-operator-basis product of the right bases, absent blocks being zero; lifting is the basis product. The linear or nonlinear solver asked for is given exactly the projected operator, right-hand side and initial state, and its answer is lifted unchanged, also after storing and reloading the operator or appending vectors to a basis.",
 ["inputs", "configurations", "histories"], "every basis, operator, right-hand side, solver answer; block layouts",
 "The existing tests of the reduced model need libROM and do not build here; each runs one input file end to end.",
 ["src/rom_handler.cpp", "include/rom_handler.hpp", "src/linalg_utils.cpp", "src/hdf5_utils.cpp"],
 [("numbering", "ROMHandlerBase::GetBlockIndex, GetDomainAndVariableIndex, SetBlockSizes, ParseInputs, ParseSupremizerInput"), ("projection", "MFEMROMHandler::Project*, LiftUp*, AppendReferenceBasis"), ("system", "MFEMROMHandler::ProjectOperatorOnReducedBasis, SetRomMat, SaveOperator, LoadOperatorFromFile, Solve, NonlinearSolve")],
 ["1-4 subdomains of 1-3 components, 1-3 variables, 1-4 basis vectors per block, 2-9 full-order unknowns per block, both orderings, separate and joint bases", "bases, operators, vectors and solver answers symbolic (operators in part)"],
 ["the linear and nonlinear solvers themselves (MFEM, MUMPS: any answer); algebraic multigrid", "larger blocks"], rom=True, assumptions=[STUB])
prop("C20", "Every sample is taken once and every snapshot is kept, named and paired right",
 "The grid of samples is numbered one-to-one and row-major over the parameters' samples, every sample belongs to exactly one process, and taking a sample sets every parameter to the value of its own index (or to a draw from its range). Every block of every sampled solution becomes the next column of exactly the snapshot matrix of its component and variable, unchanged; every port record pairs the columns that hold the states of the two subdomains sharing the port in the same sample. Writing, and collecting any number of written runs by basis tag or by port, preserves order, number, values and pairing.",
 ["inputs", "configurations", "histories"], "every sampling plan, process count, sequence of samples and set of collected runs",
 "The existing tests of sampling need libROM and do not build here; each runs one plan.",
 ["src/sample_generator.cpp", "src/random_sample_generator.cpp", "src/main_workflow.cpp", "include/sample_generator.hpp", "include/random_sample_generator.hpp", "src/parameter.cpp", "src/hdf5_utils.cpp"],
 [("plan", "SampleGenerator::GetSampleIndex, SetSampleParams, DistributeSamples, IsMyJob; RandomSampleGenerator"), ("snapshots", "SampleGenerator::SaveSnapshot, SaveSnapshotPorts, LookUpSnapshot, LookUpSnapshotPortColOffsets"), ("collection", "SampleGenerator::WriteSnapshots, WriteSnapshotPorts, CollectSnapshotsByBasis, CollectSnapshotsByPort; CollectSamples, GetGlobalBasisTagList, FindSnapshotFilesForBasis in main_workflow")],
 ["1-3 parameters of up to 4 samples, 1-5 processes; 1-4 samples of compositions of 1-4 subdomains and 3 components, 1-2 variables together or apart, 1-2 runs; sample numbers and snapshot values symbolic"],
 ["libROM's BasisGenerator (a stand-in keeps, writes and reads the columns)", "writing from several processes at once"], ints=True, rom=True, wrap=["_Z13UniformRandomv", "_Z13UniformRandomRKiS0_", "exit"], assumptions=[STUB])
prop("C21", "The full-order system of a decomposed domain is that of the undecomposed problem",
 "For Poisson, advection-diffusion, linear elasticity and Stokes flow, the operator blocks and right-hand side assembled over any decomposition of a mesh are exactly those of the (discontinuous) Galerkin discretisation of the same problem on the undecomposed mesh: domain terms once per element, interface terms as on an interior face, boundary terms on exactly the boundaries of the right type (Dirichlet and zero weakly, Neumann data where the physics takes it, nothing elsewhere), with the problem's source, materials and penalties, whatever problem was set before and in whatever order its boundaries are listed. The Stokes saddle-point system places velocity and pressure blocks consistently, the gradient is the transposed divergence, and where velocities are given on the whole boundary the correction makes their net flux vanish.",
 ["inputs", "configurations", "histories"], "every boundary value, source, material, penalty, flow, partition and boundary type",
 "The existing tests of the solvers need libROM and do not build here; they compare convergence rates of one manufactured solution each.",
 ["src/poisson_solver.cpp", "src/advdiff_solver.cpp", "src/linelast_solver.cpp", "src/stokes_solver.cpp", "src/multiblock_solver.cpp", "src/interface_form.cpp", "src/dg_mixed_bilin.cpp", "src/dg_linear.cpp", "src/dg_bilinear.cpp"],
 [("boundary conditions", "SetParameterizedProblem, SetupBCVariables, SetupRHSBCOperators, SetupDomainBCOperators of the solvers"), ("assembly", "BuildOperators, AssembleRHS, AssembleOperator of the solvers"), ("incompressibility", "StokesSolver::SetComplementaryFlux, DeterminePressureDirichlet")],
 ["2x2 quadrilaterals or 4 triangles, distorted, in 1-4 subdomains (6 partitions); order 1 (Stokes velocity 2); continuous and discontinuous elements; up to 12 combinations of partition, boundary types, listing order, penalty defaults and a former problem", "boundary values, source, flow, materials, penalty parameters, viscosity symbolic (linear in space)"],
 ["larger and three-dimensional meshes, higher orders, coefficients that are not linear in space", "MFEM's own integrators, given as equations in engine/mfem_integ.cpp (validated against the library at run time)", "component-based topologies (C23)"], rom=True, integ=True, assumptions=[STUB])
prop("C22", "Solving stores, saves, loads and compares the answer to the assembled system",
 "For Poisson, advection-diffusion, linear elasticity and Stokes flow, Solve hands exactly the assembled operator and right-hand side to the solver the input file asks for (iterative with or without preconditioner, or direct with the right symmetry), with its tolerances and a zero first guess; the answer, in the right place for every variable and subdomain (and, when only the pressure gradient matters, with zero-mean pressure), becomes the solution, the convergence flag is the solver's and a snapshot is taken exactly when it converged. Saving a solution and loading it, with its time if asked, restores every value; a file of another problem or a missing one is refused without touching the state; copies are independent; the relative error is the ratio of the norms of difference and solution over all subdomains, per variable; views by variable and by subdomain are inverse to each other; the flow of an advection-diffusion problem is the velocity of the flow problem, loaded if asked and available, computed (and saved if asked) otherwise.",
 ["inputs", "configurations", "histories"], "every right-hand side, solver answer, stored state, partition, solver option and file history",
 "The existing tests of the solvers need libROM and do not build here; they compare convergence rates of one manufactured solution each.",
 ["src/poisson_solver.cpp", "src/advdiff_solver.cpp", "src/linelast_solver.cpp", "src/stokes_solver.cpp", "src/multiblock_solver.cpp", "src/hdf5_utils.cpp"],
 [("solve", "Solve of the solvers"), ("files", "MultiBlockSolver::SaveSolution, LoadSolution, SaveSolutionWithTime, LoadSolutionWithTime, CopySolution"), ("comparison", "MultiBlockSolver::CompareSolution, ComputeRelativeError"), ("views", "SortByVariables, SortBySubdomains, GetVariableVector, SetVariableVector, SaveSnapshots"), ("flow field", "AdvDiffSolver::GetFlowField")],
 ["2x2 quadrilaterals in 1, 2 or 4 subdomains; order 1 (Stokes velocity 2); all four solver options, convergence or not, sampling or not, pressure level free or fixed", "boundary data, sources, solver answers, stored states and norms symbolic"],
 ["the iterative, direct and multigrid solvers and the norm quadrature themselves (stand-ins that record the question and return an arbitrary answer)", "larger meshes, more processes"], rom=True, integ=True, assumptions=[STUB])
prop("C23", "Reduced elements assemble to the projection of the composed full-order system",
 "For Poisson, linear elasticity and Stokes flow, the reduced operator built from stored elements of components, boundaries and reference ports, the one projected from the assembled full-order system and stored, and the one projected on the fly are all exactly the full-order system of the composed (or decomposed) domain between the bases of its subdomains, in the block order the handler announces, with shared or separate variable bases and supremizers appended, and for the boundary types of the present run; the reduced right-hand side is the projected one and the solution is lifted with the same bases. Supremizers are the discrete gradients of the pressure basis vectors, orthonormalised after the velocity basis; asking for more than there are is refused.",
 ["inputs", "configurations", "histories"], "every basis, penalty, material, viscosity, boundary datum, composition, boundary type, block order and building level",
 "The existing workflow tests need libROM and do not build here; they compare one composition.",
 ["src/multiblock_solver.cpp", "src/poisson_solver.cpp", "src/linelast_solver.cpp", "src/stokes_solver.cpp", "src/rom_element_collection.cpp", "src/rom_handler.cpp", "src/interface_form.cpp"],
 [("elements", "BuildROMLinElems, BuildCompROMLinElems, BuildBdrROMLinElems, BuildItfaceROMLinElems of the solvers"), ("files", "ROMLinearElement::Save, Load"), ("assembly", "MultiBlockSolver::AssembleROMMat"), ("projection", "ProjectOperatorOnReducedBasis, ProjectRHSOnReducedBasis, SolveROM of the solvers"), ("supremizers", "StokesSolver::EnrichSupremizer, LoadSupremizer")],
 ["2x2 lattices of one component (two numberings of subdomains and ports) and rows of two components, quadrilaterals or (with full DG) triangles, 1-2 elements per component; 2x2 meshes decomposed in 2-3 subdomains; order 1 (Stokes velocity 2); 1-2 basis vectors, up to one supremizer", "bases (some entries), penalties, materials, viscosity, boundary data and answers symbolic; up to 5 combinations of boundary types"],
 ["larger compositions, rotated components, three dimensions", "materials that vary in space (the code stores one element per component)", "libROM's file format"], rom=True, integ=True, assumptions=[STUB])
prop("C24", "Newton's method gets the residual and Jacobian of the undecomposed flow",
 "For steady Navier-Stokes flow on a decomposed domain, the residual handed to Newton's method (or LBFGS, if asked) is the viscous and pressure operator of the undecomposed problem plus its convection term in the form asked for (plain, or with Lax-Friedrichs fluxes on every interior, interface and boundary face, the boundary velocity being the given one and the interior one where the stress is given), scaled by the density asked for and with the viscosity of the problem; the Jacobian handed to the linear solver asked for is its derivative at that very state, whatever was evaluated before. The first guess is the saved solution when a restart is asked for and a small perturbation of rest otherwise; tolerances are those asked for; the answer becomes the solution in every subdomain, with zero-mean pressure where the velocity is given everywhere; the convergence flag is Newton's, and a snapshot is taken exactly when it converged.",
 ["inputs", "configurations", "histories"], "every state, viscosity, density, answer, boundary type, partition, operator type, solver option and restart",
 "The existing tests of the solver need libROM and do not build here; they compare convergence rates of one manufactured solution and a directional derivative at one random state.",
 ["src/steady_ns_solver.cpp", "src/stokes_solver.cpp", "src/multiblock_solver.cpp", "src/interface_form.cpp", "src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp"],
 [("residual", "SteadyNSOperator::Mult, SteadyNSSolver::BuildDomainOperators, SetupDomainBCOperators"), ("Jacobian", "SteadyNSOperator::GetGradient"), ("solve", "SteadyNSSolver::Solve"), ("restart", "MultiBlockSolver::LoadSolution, SortByVariables")],
 ["4 triangles or 2x2 quadrilaterals, distorted, in 1-3 subdomains; velocity order 2, pressure order 1; continuous and discontinuous; three sets of boundary types", "a third of the state (plain convection on triangles) or a few of its entries near a fixed state (else), viscosity, density and answers symbolic"],
 ["Newton's method, LBFGS, GMRES and MUMPS themselves (stand-ins that record the question and return an arbitrary answer)", "larger and three-dimensional meshes, states at which the Lax-Friedrichs speed is not differentiable (C03)"], rom=True, integ=True, assumptions=[STUB])
prop("C25", "Reduced flow: residual and Jacobian are projections of the full-order ones",
 "For steady Navier-Stokes flow, the residual handed to Newton's method for the reduced model is the full-order residual of the lifted state projected on the bases, and the Jacobian handed to the linear solver asked for is its derivative at that very state: with convection stored as tensors (of components, of the subdomains of one system, or built on the fly) and with sampled quadrature when every point is sampled with its own weight, on elements, faces inside components, boundaries (given velocity, zero velocity, stress) and reference ports, precomputed or not. This holds for shared and separate variable bases, both block orders, and components with different numbers of basis vectors, after the elements went through their files. The right-hand side is the projected one, the first guess the projection of the saved solution when a restart is asked for and near rest otherwise, the tolerances and solvers those asked for, and the answer is lifted with the same bases.",
 ["inputs", "configurations", "histories"], "every reduced state, basis, viscosity, density, answer, composition, boundary type, block order and building level",
 "The existing tests of the reduced flow need libROM and do not build here; they compare directional derivatives and one reconstruction at one random state.",
 ["src/steady_ns_solver.cpp", "src/rom_handler.cpp", "src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp", "src/hyperreduction_integ.cpp", "src/hdf5_utils.cpp"],
 [("tensors", "SteadyNSTensorROM, SteadyNSSolver::GetReducedTensor, BuildROMTensorElems, AssembleROMTensorOper, ProjectOperatorOnReducedBasis"), ("sampling", "SteadyNSEQPROM, SteadyNSSolver::AllocateROMEQPElems, AssembleROMEQPOper"), ("files", "SteadyNSSolver::SaveROMOperator, LoadROMOperatorFromFile, SaveROMNlinElems, LoadROMNlinElems"), ("solve", "SteadyNSSolver::SolveROM, MFEMROMHandler::NonlinearSolve")],
 ["2x2 lattices of one component and rows of two components, quadrilaterals (plain convection) or triangles, 1-2 elements per component; 2x2 meshes decomposed in 2-3 subdomains; velocity order 2, pressure order 1; 1-2 basis vectors and one supremizer", "bases (some entries), most of the reduced state, viscosity, density and answers symbolic; Lax-Friedrichs: two entries of the state near a fixed one"],
 ["Newton's method, MINRES and MUMPS themselves (stand-ins that record the question and return an arbitrary answer)", "subsets of quadrature points (C17, C18)", "larger compositions, rotated components, three dimensions", "libROM's file format"], rom=True, integ=True, assumptions=[STUB])
prop("C26", "Every time step solves the decomposed flow's system at its own time",
 "For unsteady Navier-Stokes flow, each step solves the system of the undecomposed problem: the velocity mass matrix over the time step plus the viscous and pressure operator, against the sources, boundary data and convection (with Lax-Friedrichs fluxes) of the previous state at the previous time plus that state's mass term. The first state is the problem's initial condition or the one in the restart file. The answer becomes the next state, less its mean pressure when no boundary fixes the level. The files written on the way hold the state, step and time they were written at, so a run continued from one of them solves the same systems as the run that was not interrupted; the snapshots are the states at the steps asked for. The reduced model's steps are the projections of these same steps, started from the projection of the first state, and its last state is lifted with the bases.",
 ["inputs", "configurations", "histories"], "every time step size, viscosity, state answered by the solver, partition, boundary type, initial condition, restart step and sampling interval",
 "The existing tests of the solver need libROM and do not build here; they compare convergence rates of one manufactured solution with steady boundary data.",
 ["src/unsteady_ns_solver.cpp", "src/steady_ns_solver.cpp", "src/stokes_solver.cpp", "src/multiblock_solver.cpp", "src/rom_handler.cpp"],
 [("steps", "UnsteadyNSSolver::Solve, Step, InitializeTimeIntegration, SetTime, AssembleOperator"), ("initial condition and restart", "UnsteadyNSSolver::SetupInitialCondition, SetParameterizedProblem, MultiBlockSolver::SaveSolutionWithTime, LoadSolutionWithTime"), ("snapshots", "UnsteadyNSSolver::PrepareSnapshots, MultiBlockSolver::SaveSnapshots"), ("reduced steps", "UnsteadyNSSolver::SolveROM, AssembleROMMat, BuildCompROMLinElems")],
 ["4 distorted triangles in 1-3 subdomains, continuous and discontinuous; compositions of one or two components for the reduced steps; velocity order 2, pressure order 1; 3 steps (reduced: 2)", "time step size, viscosity and a few entries of every state symbolic near a fixed one; boundary data and sources linear in space and time"],
 ["MUMPS itself (a stand-in that records the question and returns an arbitrary answer)", "stability and accuracy of the scheme (N05)", "larger and three-dimensional meshes, states at which the Lax-Friedrichs speed changes branch"], rom=True, integ=True, assumptions=[STUB])
na("N01", "A reduced solution approximates the full one to the basis' accuracy",
 "Solving the reduced system and lifting it back reproduces the full-order solution whenever that solution lies in the span of the basis, for every physics and for global and component-wise bases.",
 ["inputs", "configurations"], "every training set and parameter", "Needs every basis and parameter; existing workflow tests sample one.",
 ["src/rom_handler.cpp", "src/main_workflow.cpp"], [("projection and lifting", "MFEMROMHandler::ProjectOperatorOnReducedBasis, Solve")], "what is exact in it is claimed by C23 and C25 (the reduced system is the projection of the full one and its solution is lifted with the same bases); the accuracy of the result depends on libROM's POD, MUMPS and MFEM's iterative solvers in floating point, which are not here or outside exact-arithmetic reasoning.")
na("N03", "Empirical quadrature reproduces the training integrals to its tolerance",
 "Non-negative sample weights found by training reproduce every training integral within the requested tolerance.",
 ["inputs"], "every training set", "Existing tests use one set.", ["src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp"],
 [("training", "ROMNonlinearForm::TrainEQP, SetupEQPSystem")], "the non-negative least squares solver is libROM's, an iterative floating-point optimiser that is not installed; the system it is given and the use of its answer are claimed by C17 and C18.")
na("N05", "Time stepping and nonlinear solves meet their tolerances or report failure",
 "A nonlinear or linear solve either meets the requested tolerance or is reported as not converged; time stepping of the flow solver is consistent with its stated order.",
 ["inputs", "histories"], "every state and time step", "Existing tests run one flow.", ["src/steady_ns_solver.cpp", "src/unsteady_ns_solver.cpp", "src/navier_solver.cpp"],
 [("solves", "SteadyNSSolver::Solve, UnsteadyNSSolver::Step")], "the iterations are MFEM's and MUMPS' in floating point, and their convergence is outside exact-arithmetic bounded reasoning; what they are given, with which tolerances, and how their flag and answer are used is claimed by C22, C24 and C25.")
