"""Source of properties.jsonl and MANIFEST.json: run `python3-vt tools/props.py` from /verif."""
import json

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}, note=note))


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


prop('C01', 'Node numbers and positions are inverse of each other in 2D and 3D',
     'For every 2D or 3D domain, converting a position inside the domain to a node number and back gives the same position, and converting a node number to a position and back gives the same node number; distinct positions get distinct numbers in [0, number of nodes). The number of a position is row*ny + column, plus depth*nx*ny in 3D. A grid reads and writes exactly the value of the node its position names, holds one zero-initialised value per node when created, and conversions leave their arguments unchanged.',
     ['inputs'], 'all domain sizes >= 1 in two and three dimensions, all nodes and positions of them',
     'Tests convert a handful of nodes of one or two small domains; the statement is about every domain shape, including non-square ones, and every node.',
     ['pfutil/indexPositionConversion.go', 'pfutil/grid.go'], [('NodeIdx', 'pfutil/indexPositionConversion.go'), ('Pos', 'pfutil/indexPositionConversion.go'), ('Grid.Get/Set/Index/Pos', 'pfutil/grid.go')],
     ['pfutil.NodeIdx', 'pfutil.Pos', 'pfutil.Grid'], 'symbolic sizes, all nodes; no bound')
prop('C02', 'Wrapping gives the periodic image inside the box',
     'Wrapping a position moves every coordinate into [0, side) by a whole number of periods, for any integer coordinate (also far outside and negative) and any side >= 1, in any number of dimensions. The box itself is not changed.',
     ['inputs'], 'all integer positions, all box sides >= 1, any dimension',
     'Tests wrap a few positions one period away from a box.',
     ['pfutil/sliceOperations.go'], [('Wrap', 'pfutil/sliceOperations.go')], ['pfutil.Wrap'], 'loop over the dimensions proved for every length')
prop('C03', 'The product iterator enumerates every tuple exactly once',
     'A product iterator over end values e_1..e_n (each >= 1) returns every tuple with 0 <= t_i < e_i exactly once, in lexicographic order with the last index running fastest, starting with all zeros, and returns nil afterwards. The passed end values are not changed.',
     ['inputs', 'histories'], 'all numbers of factors 1..4 under contract (any number in the conformance run), all end values, all sequences of calls',
     'Tests enumerate two small products.',
     ['pfutil/iterators.go'], [('Product.Next', 'pfutil/iterators.go')], ['pfutil.NewProduct', 'Product.Next'], 'step contract (successor) plus induction lemma')
prop('C04', 'Fourier transforms follow the node order and frequency convention',
     'On every 2D and 3D domain the forward transform of a field is the sum over all nodes x of field(x) exp(-2 pi i f.x) at the node of frequency f, and the inverse uses the opposite sign without normalisation; both replace the passed data and return it. The frequency of a node is coordinate/side, minus one when that exceeds one half, one value per dimension in (-1/2, 1/2]. The conjugate node of a node is the node of coordinates (side - coordinate) modulo side.',
     ['inputs'], 'all domain sizes >= 1, all data, all nodes',
     'Tests compare one 8x16 transform and four cubic domains.',
     ['pfutil/fftWrap.go'], [('NewFFTW plan', 'pfutil/fftWrap.go'), ('Freq, ConjugateNode', 'pfutil/fftWrap.go')], ['pfutil.FFTWWrapper'], 'the FFTW library itself is trusted (unnormalised row-major DFT of the given sizes and sign)')
prop('C05', 'Voronoi assigns every node to its nearest generating point',
     'After a Voronoi assignment every node holds the number (index in the list) of the generating point with the smallest periodic (minimum image) Euclidean distance to the node; among equally close points the lowest number wins. This holds for any domain size and any non-empty list of generating points, and points and domain size are not changed.',
     ['inputs'], 'all domains, all non-empty lists of generating nodes, all nodes',
     'One small example is tested.',
     ['pfutil/voronoi.go'], [('closestPoint running minimum', 'pfutil/voronoi.go'), ('pointDistSq minimum image', 'pfutil/voronoi.go')], ['pfutil.Voronoi'], 'loop over points by induction with ghost running minimum; squared distances below 2^63-1 assumed')
prop('C06', 'Blurring is the kernel-weighted periodic mean of the old values',
     'Blurring replaces the value of every node by the kernel-weighted mean of the values before the call over all offsets within the cutoff (per axis, inclusive), with periodic boundaries. For a complex slice only the real part is blurred and the imaginary part is kept. The box kernel is one for offsets of at most its width along every axis and zero otherwise, and its cutoff covers half the width.',
     ['inputs'], 'all domain sizes, all data, all kernels with non-zero sum; cutoffs 0..2 in 2D and 0..1 in 3D under contract',
     'Tests blur one small field with one kernel.',
     ['pfutil/blur.go', 'pfutil/sliceWrappers.go'], [('Blur', 'pfutil/blur.go'), ('BoxKernel', 'pfutil/blur.go')], ['pfutil.Blur'], 'node loop unbounded; stencil size fixed per case')
prop('C07', 'Shapes, affine maps and drawing agree with their geometry',
     'Affine maps act as the translation, per-axis scaling, or right-handed rotation about x, y or z that they are named after, and appending a map applies it after the existing one, leaving the appended map unchanged. A box contains exactly the points within half its side along each axis, a ball exactly those closer than its radius, and their bounding boxes contain them. Drawing sets exactly the nodes whose mapped position (third coordinate zero in 2D; unmapped when no map is given) lies inside the shape to the given value and leaves all others unchanged.',
     ['inputs'], 'all maps, points, shapes, 2D and 3D grid sizes and values',
     'Tests draw two shapes and apply a few maps.',
     ['pfutil/affine.go', 'pfutil/shapes.go'], [('Affine.Apply/Append', 'pfutil/affine.go'), ('Draw', 'pfutil/shapes.go'), ('InteriorPoint/BBox', 'pfutil/shapes.go')], ['pfutil.Draw', 'pfutil.Affine', 'pfutil.Box', 'pfutil.Ball'], 'gonum matrix operations by contract')
prop('C08', 'Element-wise field arithmetic is exact per element for every length',
     'Adding, multiplying, dividing by a real scalar and clearing complex slices act on every element and only there; the dot product is the sum of all products, the integer product the product of all entries, and the maximum/minimum real part is attained by an element and bounds all of them. Two slices are approximately equal exactly when their lengths agree and every real and imaginary part differs by at most the tolerance. Slice wrappers and grid conversions read and write exactly the (real part of the) named element, and copies share no storage.',
     ['inputs'], 'all lengths and all element values',
     'Tests run each function on a single slice.',
     ['pfutil/sliceOperations.go', 'pfutil/sliceWrappers.go', 'pfutil/grid.go'], [('element loops', 'pfutil/sliceOperations.go')], ['pfutil slice functions'], 'loops of any length by induction')

prop('C09', 'Elastic tensors have the stated components and material symmetry',
     'Setting a component of a rank-4 tensor changes that component only. Isotropic gives C_ijkl = (K - 2G/3) d_ij d_kl + G (d_ik d_jl + d_il d_jk) with G the shear modulus of the bulk modulus and Poisson ratio, CubicMaterial gives c11/c12/c44 in the cubic positions, and FromFlatVoigt gives C_ijkl = voigt[6 V(ij) + V(kl)] with V numbering xx, yy, zz, yz, xz, xy. Isotropic tensors are unchanged by every rotation, cubic tensors by every quarter turn about a coordinate axis.',
     ['inputs'], 'all moduli, all 36 Voigt entries, all component indices, all rotations',
     'Tests compare a few components for one material.',
     ['elasticity/rank4.go'], [('constructors', 'elasticity/rank4.go')], ['elasticity.Isotropic, CubicMaterial, FromFlatVoigt, Rank4.At/Set'], 'all components, symbolic moduli')
prop('C10', 'Tensor rotation, contraction, energy density and rotation matrices',
     'Rotate replaces C by R_im R_jn R_kp R_lq C_mnpq for any matrix R, ContractLast returns C_ijkl e_kl and EnergyDensity half of e_ij C_ijkl e_kl, without changing their other arguments. RotationMatrix(angle, axis) is orthogonal with determinant one, keeps its axis, has trace 1 + 2 cos(angle) and the sine of the angle in its upper off-diagonal entry, so that rotating tensor and strain together leaves the energy unchanged.',
     ['inputs'], 'all tensors (no symmetry assumed), matrices, angles and axes',
     'Tests rotate one cubic tensor by one angle.',
     ['elasticity/rank4.go', 'elasticity/linearElasticity.go'], [('contractions', 'elasticity/rank4.go')], ['Rank4.Rotate, ContractLast, EnergyDensity, RotationMatrix'], 'all components, symbolic entries')
prop('C11', 'Fourier-space displacements satisfy mechanical equilibrium',
     'For every non-zero frequency f the returned displacement u satisfies 4 pi^2 C_mjnl f_j f_l u_n = b_m for the given body force b, and the zero frequency has no displacement; Strain(m,n) is i pi (f_n u_m + f_m u_n) with odd derivatives dropped at the Nyquist frequency (|f| = 1/2). The misfit force is -i 2 pi f_j C_cjkl e_kl times the transformed indicator, and the first-order perturbed force -i 2 pi f_q C_cqij FT[(e_ij - strain_ij) shape] for symmetric misfits and tensors. The homogeneous-modulus energy is the sum over all nodes of the energy density of (strain - misfit inside the domain) divided by the domain volume, and the indicator is restored.',
     ['inputs'], 'all domain sizes, positive definite tensors, misfits, forces and indicators',
     'Tests check one spherical inclusion against an analytic value.',
     ['elasticity/linearElasticity.go', 'elasticity/effectiveForce.go', 'elasticity/perturbation.go'], [('per-frequency solve', 'elasticity/linearElasticity.go')], ['elasticity.Displacements, Strain, EffectiveForce.Get, PerturbedForce, HomogeneousModulusEnergy'], 'any number of nodes by induction; HomogeneousModulusEnergy itself is only checked bounded (conformance run against a direct evaluation)')

prop('C12', 'A semi-implicit Euler step is (y + dt N)/(1 - dt A) per frequency',
     'One Euler step replaces the transform of every field by (F(y) + dt N)/(1 - dt A), times the filter value at 2|f|/pi when a filter is set, where N and A are the sums of the explicit (with sources and modifiers) and implicit terms of that field at the current time. All terms see the transformed fields and derived fields of the state before the step, for every field; the field data afterwards is the inverse transform, in the same storage.',
     ['inputs', 'histories'], 'all fields, derived field functions, explicit and implicit terms, filters, time steps; 1 to 3 fields with 0 to 2 derived fields under contract; any number of nodes',
     'Tests run single-field linear equations, where the order of updates and the time of evaluation do not matter.',
     ['pf/euler.go', 'pf/model.go', 'pf/util.go'], [('Euler.Step', 'pf/euler.go'), ('GetRHS/GetDenum', 'pf/model.go'), ('ApplyModalFilter', 'pf/util.go')], ['pf.Euler.Step'],
     'terms, derived field functions and the Fourier transform are uninterpreted operators with congruence; the number of nodes is unbounded, the number of fields fixed per case')
prop('C13', 'An RK4 step is the four-stage scheme with backward implicit parts',
     'With k1 = N(y, t), each further stage evaluates k_j = N at the state (F(y) + c dt k)/(1 - c dt A) and time t + c dt for c = 1/2, 1/2, 1, with the preceding k and all derived fields recomputed from that state for all fields together. The step replaces the transform of every field by (F(y) + dt (k1 + 2 k2 + 2 k3 + k4)/6)/(1 - dt A), times the filter when set, with A evaluated at t.',
     ['inputs', 'histories'], 'all fields, derived field functions, explicit and implicit terms, filters, time steps; 1 to 2 fields with 0 to 1 derived fields under contract; any number of nodes',
     'Tests compare with the analytic solution of one linear equation within a tolerance that a wrong stage time or coupling does not exceed.',
     ['pf/rk4.go', 'pf/model.go'], [('RK4.Step, correction, PrepareNextCorrection', 'pf/rk4.go')], ['pf.RK4.Step'],
     'as C12')
prop('C14', 'Time is steps taken times step size, in every stepper, term and source',
     'After n steps since the start of a stepper, by Step, Propagate(n) or the solver, its time is n times the step size. Euler evaluates all terms and sources at the time of the state it starts from, RK4 its stages at that time plus 0, 1/2, 1/2 and 1 step. A source adds amplitude(t) exp(-2 pi i f.x) to the right-hand side of its equation at frequency f, and terms get the time that GetRHS and GetDenum were asked for.',
     ['inputs', 'histories'], 'all step sizes, numbers of steps, positions and amplitude functions',
     'Tests check the time of one stepper and one source at one time.',
     ['pf/euler.go', 'pf/rk4.go', 'pf/implicitEuler.go', 'pf/model.go', 'pf/sourceTerm.go'], [('GetTime', 'pf/rk4.go'), ('Source.Eval', 'pf/sourceTerm.go')], ['GetTime, Propagate, GetRHS, GetDenum, Source.Eval'],
     'number of steps and nodes unbounded')
prop('C15', 'Steps conserve the mean when nothing drives the zero frequency',
     'When every explicit term and source vanishes at zero frequency, every implicit term too, and the filter is one at zero, an Euler or RK4 step leaves the mean of every field unchanged, whatever the other frequencies, derived fields and couplings do.',
     ['inputs', 'histories'], 'all such systems of equations, any number of nodes, steps and time step; 1 to 2 fields under contract',
     'Tests compare one final field with a reference within a loose tolerance.',
     ['pf/euler.go', 'pf/rk4.go'], [('Euler.Step', 'pf/euler.go'), ('RK4.Step', 'pf/rk4.go')], ['pf.Euler.Step, pf.RK4.Step'],
     'terms uninterpreted, zero at zero frequency')

prop('C18', 'The solver tells terms, callbacks and monitors about every step and epoch',
     'Solving for n epochs of k steps takes exactly n k steps of the chosen stepper on the solver model. After each step every implicit, explicit and mixed term is told once, with the time of the stepper and the model bricks; after each epoch all callbacks run in order of registration with the solver and the epoch number (start epoch + epochs done), then all monitors in order with the bricks. SetStepper and NewSolver hand the step size and the transform to a stepper that starts at time zero, and a point monitor appends the real part of its field at its site.',
     ['inputs', 'histories'], 'all numbers of epochs and steps, start epochs, registered terms, callbacks and monitors (0 to 2 of each under contract, map order both ways)',
     'Tests run one solver and never check order, counts or times of the notifications.',
     ['pf/solver.go', 'pf/monitor.go'], [('Propagate, Solve', 'pf/solver.go'), ('PointMonitor.Add', 'pf/monitor.go')], ['pf.Solver, pf.PointMonitor'], 'loops over steps and epochs proved for every count with ghost counters')
prop('C19', 'A model adds up its terms, sources and modifiers for the right equation',
     'The right-hand side of an equation is the sum of its explicit terms and of the sources added to it, passed through the modifiers of that equation in order of registration; the denominator is the sum of its implicit terms; fields are not changed. Fields, scalars, functions and derived fields are reachable as bricks under their own name and share storage with the model, SyncDerivedFields recomputes every derived field, and a copied field is independent. Init builds one right-hand side per equation however often it is called and refuses implicit terms that vary with a field.',
     ['inputs', 'histories'], 'all terms, sources, modifiers, data and times, any number of nodes; up to 3 terms, 2 sources, 2 modifiers, 3 fields and functions under contract (more in the conformance run)',
     'Tests register one or two terms and check one equation.',
     ['pf/model.go', 'pf/userDefinedTerm.go', 'pf/sourceTerm.go'], [('GetRHS, GetDenum, Register*, Init', 'pf/model.go'), ('isImplicit', 'pf/userDefinedTerm.go')], ['pf.Model'], 'terms, modifiers and sources are arbitrary functions')
prop('C20', 'An equation string evolves exactly the equation it spells',
     'For equations whose terms are signed products of scalars and fields to positive integer powers (each name once, no name part of another or of LAP) with at most one LAP^n, in any order and spacing, or of a registered function with scalars and a LAP^n, or a user-defined term with prefixes -, LAP, LAP^2, LAP^4, explicit plus implicit parts of every equation equal the sum of the transformed terms, LAP^n acting as (-4 pi^2 f^2)^n. Terms that are the field of the equation itself times scalars and laplacians are implicit, mixed terms split into their two parts, all other terms are explicit.',
     ['inputs'], 'equations of this grammar: 9 fixed systems plus 3 generated (30 more in thorough) decided for all field data, scalars, frequencies, times and numbers of nodes; random equations in the conformance run',
     'Tests parse a dozen expressions with two fields at one node.',
     ['pf/rhsBuilder.go', 'pf/model.go', 'pf/util.go', 'pf/diffOp.go'], [('Build, ConcreteTerm, isBilinear', 'pf/rhsBuilder.go'), ('UpdateDerivedFields', 'pf/model.go'), ('GetFieldName, SplitOnMany, SortFactors', 'pf/util.go')], ['pf.Model.AddEquation, Init, GetRHS, GetDenum'],
     'per equation text the parser is executed on the text and the result proved for all data; the set of texts is a bounded sample')

prop('C16', 'Differential operators and terms are spectral derivatives of their fields',
     'LaplacianN multiplies with (-4 pi^2 f^2)^n; gradients multiply the transform with 2 pi i f, dropping the odd derivative at the Nyquist frequency unless asked to keep it, without changing their input. TensorialHessian is -4 pi^2 K_jk f_j f_k, WeightedLaplacian the transform of F times the laplacian, SquaredGradient its factor times the transform of the squared gradient, Advection minus the transform of velocity times gradient, and DivGrad 2 pi i f times the transform of F times the gradient. The last two read the values that the fields have when the derived fields are synchronised.',
     ['inputs', 'histories'], 'all field data, prefactor functions, tensors K, 2D and 3D, odd and even sizes; any number of nodes',
     'Tests check one analytic function on one square grid per term.',
     ['pf/diffOp.go', 'pf/gradientCalculator.go', 'pf/tensorialHessian.go', 'pf/squareGradientTerm.go', 'pf/advection.go'],
     [('LaplacianN.Eval', 'pf/diffOp.go'), ('GradientCalculator, DivGrad, WeightedLaplacian', 'pf/gradientCalculator.go'), ('SquaredGradient.Construct', 'pf/squareGradientTerm.go'), ('Advection', 'pf/advection.go')],
     ['terms evaluated on transformed fields'], 'the Fourier transform is an operator with congruence and inverse; frequencies are those of grids with fewer than 5 million nodes per axis')
prop('C17', 'Energy terms evolve along the derivative of their energy',
     'Pair correlation: with C(k) the largest of exp(-T^2 k^2/(2 density planes)) exp(-(k-location)^2/(2 width^2)) over the peaks (zero without peaks), the term is -P C(2 pi |f|), times the field when explicit and times the laplacian when asked for, and the energy is -1/2 sum y IFFT(P C FFT(y)). Ideal mixture: the energy is P sum(n^2/2 - C3 n^3/6 + C4 n^4/12), the function value P times its derivative, and linear part plus non-linear part the transform of that (times the laplacian). Homogeneous elasticity: the driving force is the transform of (A:strain) H\' - 2 e0 H H\' with H = 3x^2 - 2x^3 and the strain in equilibrium with the effective force of H.',
     ['inputs'], 'all fields, prefactors, peaks (any number), coefficients, symmetric misfits and tensors, 2D and 3D; any number of nodes',
     'Tests check one or two values or one sinusoidal field.',
     ['pf/pairCorrelationTerm.go', 'pfc/pairCorrelation.go', 'pfc/ideal.go', 'pf/homoLinElast.go'],
     [('PairCorrlationTerm', 'pf/pairCorrelationTerm.go'), ('ReciprocalSpacePairCorrelation.Eval', 'pfc/pairCorrelation.go'), ('IdealMixtureTerm', 'pf/pairCorrelationTerm.go'), ('HomogeneousModulusLinElast.Construct', 'pf/homoLinElast.go')],
     ['Construct, Eval, GetEnergy'], 'the displacement solver is used by its contract (C11); in 2D the sums run over the two in-plane directions')

prop('C21', 'Charge transport follows Ohm and Poisson in every dimension',
     'With E the external field plus minus the gradient of the potential that solves LAP phi = -rho (periodic, mean-free, odd derivatives dropped at the Nyquist frequency) and j_a = sum_b sigma_ab E_b with the local conductivity in the documented component order, the term is the transform of -div j and Current returns j, for densities given in real or Fourier space, which it does not change.',
     ['inputs'], 'all densities, external fields, conductivities that differ from node to node, 2D and 3D; any number of nodes',
     'Tests use one constant isotropic conductivity in 2D.',
     ['pf/chargeTransport.go'], [('current, Construct, Current, voigtIndex', 'pf/chargeTransport.go')], ['pf.ChargeTransport'], 'the regularisation 1e-16 of the potential is accepted where frequencies exceed 1e-5 (relative error below 1e-6)')

prop('C22', 'Noise has the stated statistics, and conserving terms conserve',
     'White noise is real, an independent standard normal number times sqrt(2 strength) per call. Conservative noise needs one derived field per direction, of independent such numbers and under names of its own, and adds the sum of 2i sin(pi f_a) times their transforms (nothing at the Nyquist frequency), so it never changes the mean and is real in real space. The volume conserving term is its current multiplier times the indicator; after every step but the first the multiplier changes by minus the change of the integral over (dt times the integral of the indicator), which stops a constant drift.',
     ['inputs', 'histories'], 'all strengths, node counts, fields and indicators, 1D to 3D currents, three successive updates of the multiplier',
     'Tests look at one variance and one mean of one noisy run.',
     ['pf/noise.go', 'pf/volumeConserving.go'], [('WhiteNoise.Generate, ConservativeNoise', 'pf/noise.go'), ('VolumeConservingLP', 'pf/volumeConserving.go')],
     ['pf.WhiteNoise, pf.ConservativeNoise, pf.VolumeConservingLP'], 'math/rand.NormFloat64 is trusted to give independent standard normal numbers; frequencies of grids with fewer than 50 000 nodes per axis')

prop('C23', 'Frequency iterators visit each independent amplitude exactly once',
     'On every grid the unique-frequency iterator visits, in increasing order, exactly one of every two nodes of opposite frequency and every self-conjugate node (all components zero or Nyquist), each once, and then returns -1 for good. The real-amplitude iterator does the same for exactly the self-conjugate nodes.',
     ['inputs', 'histories'], 'all numbers of nodes, 1D to 3D, odd and even sizes, every position of the iterator',
     'Tests count the visits on two cubic grids and one square one.',
     ['pf/util.go'], [('UniqueFreqIterator.Next, includeFreq', 'pf/util.go'), ('RealAmplitudeIterator.Next', 'pf/util.go')],
     ['pf.UniqueFreqIterator, pf.RealAmplitudeIterator'], 'step contract of Next (first chosen node from the current position, none skipped) and a lemma on the chosen set; frequencies of grids with fewer than 5 million nodes per axis')

prop('C24', 'Shrinking dimer dynamics follows its equations (single field)',
     'Init and SetInitialOrientation set the dimer length to the norm of the change and the orientation to the unit vector along it; the dimer shrinks as L0 exp(-t/tau) down to its minimum length and reaches any larger length at RequiredDimerLengthTime. For a single field one SDD step solves the semi-implicit equation of the reflected force, (I - dt (I - 2vv^T) A) y1 = y + dt (I - 2vv^T)(alpha F(y-lv/2) + (1-alpha) F(y+lv/2)), turns the unit orientation by dt/(l tau) times the torque orthogonal to it and renormalises it, and advances the time by dt. FieldNorm is the sum of the squared absolute values.',
     ['inputs', 'histories'], 'all grids, fields, orientations, time constants, weights, derived fields and terms (abstract), any step number',
     'Tests check one decoupled system and the convergence to a single saddle point.',
     ['pf/sdd.go'], [('SDD.Step', 'pf/sdd.go'), ('householder, householderDenum', 'pf/sdd.go'), ('Init, SetInitialOrientation, DimerLength', 'pf/sdd.go')],
     ['pf.SDD'], 'models of one field; the fields, derived fields and terms are abstract; linearity of finite sums is used as a schema (the summands are proved equal); sizes of two-field orientations are 3 nodes')

prop('C25', 'A fully implicit step solves its exponential-integrator equation',
     'For terms without explicit time, ImplicitEuler.Step asks the non-linear solver for real fields x of zero real part of IFFT(FFT(x) - e^{A dt} FFT(y) - I), where I is the integral of e^{A(dt-s)} times the line from the explicit part at y to that at x (the trapezoidal rule where |A| < 1e-5), with derived fields recomputed from x. The search starts at the Euler step from y, its result becomes the new (real) field data in the same storage, and the time advances by dt.',
     ['inputs'], 'all grids, fields, derived fields, terms (abstract), step sizes and step numbers; one and two fields, with and without implicit terms and derived fields',
     'Tests follow one diffusing and one logistic example.',
     ['pf/implicitEuler.go'], [('ImplicitEuler.Step, updateEquation', 'pf/implicitEuler.go'), ('nonlinearIntegral', 'pf/implicitEuler.go')],
     ['pf.ImplicitEuler'], 'the non-linear solver is a contract: any vector of the length of the guess after any number of residual calls; the residual is proved for an arbitrary vector from an arbitrary state of the fields')

prop('C26', 'Equivalent Miller planes are all signed permutations, each once',
     'For every triple of integers, EquivalentMiller lists exactly the signed permutations of the indices, each once and including the triple itself; EquivalentMillerNoPermutations lists exactly the sign changes, each once. NumEquivalent3D is the length of the full list, NumEquivalent2D the number of its members with L = 0, and NumEquivalent picks by dimension.',
     ['inputs'], 'all integer triples, by the 24 patterns in which indices vanish or agree up to a sign (proved to be exhaustive)',
     'Tests count a few families with small positive indices.',
     ['pfc/miller.go'], [('EquivalentMiller, EquivalentMillerNoPermutations', 'pfc/miller.go'), ('NumEquivalent2D/3D', 'pfc/miller.go')],
     ['pfc.EquivalentMiller', 'pfc.NumEquivalent'], 'symbolic indices in every pattern; the order of the lists is free')

prop('C27', 'Unit cells, reciprocal cells and their first-order changes are consistent',
     'FCC, BCC, SC3D and SC2D have their documented cell vectors as columns, and the volume of a cell is its determinant. Reciprocal returns the vectors whose products with the cell vectors are 2 pi delta, HKLVector is h b1 + k b2 + l b3, CellChange is the first-order change -M dC^T M / (2 pi) of the reciprocal vectors for any change of the cell (keeping those products), and ChangeHKLVector the change of HKLVector; arguments are not changed.',
     ['inputs'], 'all regular 2D and 3D cells, all changes of the cell (also shears), all integer indices',
     'Tests use cubic cells and an isotropic expansion, where transposed formulas agree.',
     ['pfc/lattice.go'], [('Reciprocal, CellChange', 'pfc/lattice.go'), ('HKLVector, ChangeHKLVector', 'pfc/lattice.go'), ('FCC, BCC, SC3D, SC2D', 'pfc/lattice.go')],
     ['pfc.Cell', 'pfc.ReciprocalCell'], 'gonum matrix operations are trusted contracts; entries are symbolic')

prop('C28', 'Mode expansions: density, integrals, and the energy that is minimised',
     'ModeDensity is the sum of cos(2 pi (h x + k y + l z)) over all equivalent planes (those with l = 0 in 2D), and UnitcellIntegral the tensor-product Gauss-Legendre integral over the unit cell of the product of the modes raised to the given powers. Solve minimises, once from every guess of the explorer (all sign combinations of 0.1 by default), the energy -C3/6 <n^3> + C4/12 <n^4> of n = sum of amplitude times mode, with all multinomial terms (those below 1e-4 of the largest left out) and its exact gradient and Hessian, and returns the lowest energy found with its amplitudes, or zero for the uniform density. The ideal mixing energy is n^2/2 - C3 n^3/6 + C4 n^4/12 and Deriv its derivative.',
     ['inputs'], 'all planes, positions, quadrature orders, integrands, amplitudes; 1..3 modes, coefficients C3 and C4 symbolic for one mode',
     'Tests compare a few densities and one or two minimisations of one lattice.',
     ['pfc/mode_solver.go', 'pfc/quadrature.go', 'pfc/initialGuessExplorer.go', 'pfc/ideal.go'],
     [('ModeDensity, UnitcellIntegral, build, Solve', 'pfc/mode_solver.go'), ('QuadSquare, QuadCube', 'pfc/quadrature.go'), ('HyperOctantExplorer', 'pfc/initialGuessExplorer.go')],
     ['pfc.ModeSolver', 'pfc.QuadSquare', 'pfc.QuadCube'], 'gonum quad.Legendre and optimize.Minimize are external: the problem handed to the minimiser is what is verified')

prop('C29', 'Peak widths reproduce the elastic properties they are matched to',
     'The weights are isotropic averages of the mode stiffness C_stuv = m_t Q_su m_v: bulk sum C_iijj / 9, area the same / 4 in 2D, shear (sum C_iiii - sum_{i<j} C_iijj + 3 sum_{i<j} C_ijij) / 15, xyshear (C_xxxx + C_yyyy - 2 C_xxyy + 4 C_yxyx) / 8. MatchElasticProp, for any number of modes >= 1, minimises the squared deviation of sum x_i^2 weight_i (Q = C^T C of the reciprocal cell) from every requested property, plus 1e-6 sum x_i^4 when there are fewer properties than modes, with its exact gradient, refuses unknown properties, and reports the values at the factors found. PeakWidths returns sqrt(equivalent planes / 2) |amplitude / factor| per mode and that fit.',
     ['inputs'], 'all cells, planes, targets and amplitudes; 1..3 modes and one or two properties for MatchElasticProp, any number of modes for PeakWidths',
     'Tests fit one or two lattices with two modes.',
     ['pfc/mode_solver.go'], [('BulkModWeight, ShearModWeight, AreaModulusWeight, XYPlaneShearWeight', 'pfc/mode_solver.go'), ('MatchElasticProp, PeakWidths', 'pfc/mode_solver.go')],
     ['pfc.ModeSolver'], 'optimize.Minimize is external: the problem handed to it is what is verified')

prop('C30', 'Rotated grids, tilt boundaries and crystals in their own coordinates',
     'Rotate2D gives every node of a 2D grid the old value of the node less than one pixel from its position rotated by the angle about the centre node, periodically, without changing the sides; TiltGB gives the rows below half the first side the old grid rotated by half the angle and the others the old grid rotated by minus half the angle; both refuse grids that are not 2D. CornersScaledCrd times the cell gives all 2^d corners of the box in lexicographic order. The Gaussian and circle kernels, and the smooth step Indicator with its derivative, have their formulas.',
     ['inputs'], 'all sides, angles, grid contents, cells and box sizes',
     'Tests rotate one 8x8 grid by 90 degrees, where a wrong sign of one sine or an in-place read of an already rotated node can go unnoticed.',
     ['pfutil/grid.go', 'pfc/periodicFieldInit.go', 'pfc/twoPhaseCorrFunc.go'], [('Grid.Rotate2D', 'pfutil/grid.go'), ('TiltGB, CornersScaledCrd, GaussianKernel, CircleKernel', 'pfc/periodicFieldInit.go'), ('Indicator, IndicatorDeriv', 'pfc/twoPhaseCorrFunc.go')],
     ['pfutil.Grid', 'mat.Dense'], 'pixel positions in real arithmetic; the node is found by truncation, floor or rounding')

prop('C31', 'Heat maps and line plots show the values of the file',
     'For a table with every node of an Nx x Ny domain, in any order of the rows, NewHeatMapData finds Nx and Ny, Z(x, y) is the value of the row at (x, y), and the image has its colour at pixel (x, y); dataRange gives the smallest and the largest value. readData returns position and value of the chosen column of every row (the first field if no column is given). A line plot has one line per field given with -d, in that order, or per field of the file, with the points of exactly the rows on the line, by their coordinate along the axis that is left free.',
     ['inputs'], 'heat maps of any size in any order of the rows, any values; files and lines of 0..3 rows with symbolic positions and values; images up to 3x3; line plots of 1..4 of 4 fields',
     'There are no tests of the plot commands.',
     ['cmd/contour.go', 'cmd/lineplot.go'], [('NewHeatMapData, HeatMapData.Z, readData, getColIndex, dataRange, fillImage', 'cmd/contour.go'), ('lineplotCmd, lineData, includeRow, absissaIndex, numSet', 'cmd/lineplot.go')],
     ['cmd.HeatMapData', 'cmd.DataRow'], 'cobra flags, csv reading and gonum plot are trusted contracts (ghost file, flags and plot)')

prop('C32', 'Stored fields come back: binary, CSV, image and XDMF files',
     'LoadFloat64 returns exactly what SaveFloat64 stored; Float64IO stores the real parts of every field as big endian doubles in a file of its own, <prefix>_<field>_<epoch>.bin, which is where CreateXDMF points to for that field and step, and Uint8IO maps the range of every field linearly to 0..255. CsvIO and SaveCsv store X, Y, Z and one column per field, with one row per node holding its position (missing coordinates 0) and the values, all of it before the file is closed; data that does not fit the domain is refused. LoadCSV returns one field per column after the third, with its name and the values of the rows in order.',
     ['inputs'], 'any number of nodes and values, 2D and 3D domains, 1..3 fields; LoadCSV for files of 0..3 rows, CreateXDMF for 1..3 steps and fields',
     'Tests store one small field and load it, or only check that the functions run.',
     ['pf/fileIO.go', 'pf/xdmf.go', 'pf/util.go'], [('SaveFloat64, LoadFloat64, Float64IO, Uint8IO, CsvIO, SaveCsv, LoadCSV', 'pf/fileIO.go'), ('CreateXDMF', 'pf/xdmf.go')],
     ['pf.Float64IO', 'pf.Uint8IO', 'pf.CsvIO', 'pf.XDMF'], 'os, encoding/binary, encoding/csv and number formatting are trusted contracts (ghost files)')

prop('C33', 'The database gives back what a simulation stored in it',
     'SaveFields stores one row per field and node with the real part, the node, the timestep and the number of this simulation, all of it committed; the position of every node is stored once, a new simulation is registered under its own number, and a domain that is not the one of the database is refused before anything is written. Load returns the fields of that simulation and timestep sorted by name, with the value of every node in its place whatever the order of the rows, and LoadLast those of the largest timestep. SetAttr, SetTextAttr, TimeSeries and Comment add one row per entry for this simulation, and the exports write one row per node (positions, a column per field) or per timestep (a column per series).',
     ['inputs', 'histories'], 'any number of nodes for SaveFields (1..3 fields) and Load (one field, any order of rows); small databases of two simulations for several fields and the exports; domains of more than one node',
     'Tests store and load one small simulation.',
     ['pf/database.go', 'cmd/export.go'], [('FieldDB.SaveFields, Load, LoadLast, SetAttr, SetTextAttr, TimeSeries, Comment', 'pf/database.go'), ('exportFieldData, exportTimeseries', 'cmd/export.go')],
     ['pf.FieldDB'], 'database/sql with sqlite is a trusted contract (ghost tables; statements and queries are parsed from their text); the key column of the series file may be preceded by the timestep')

prop('C34', 'Bound transform, penalty, spectral filter and lattice peaks',
     'BoundTransform.Forward maps the real line increasingly onto (Min, Max) as Min + (Max-Min)(arctan(x)/pi + 1/2), and Backward is its inverse on that interval. For odd exponents NegativeValuePenalty is zero for x >= 0 and the derivative of Prefactor(|x|^Exponent - x^Exponent) below, applied by Evaluate to the real part of its own field; the default is 1500 and exponent 3. NewVandeven(p) tabulates 1 - (Gamma(2p)/Gamma(p)^2) times the trapezoidal integral of (t(1-t))^(p-1) at 1000 equally spaced points of [0, 1], Eval interpolates a table linearly and keeps its last value beyond, and SquareLattice2D and TriangularLattice2D put their peaks at 2 pi sqrt(h^2+k^2)/a with the given width.',
     ['inputs'], 'any bounds Min < Max and positions; exponents 3, 5, 7; tables of any length, any x >= 0; any order of the filter; any width and lattice parameter',
     'Tests sample two points of the transform, three of the penalty and of the filter.',
     ['pf/boundTransform.go', 'pf/negative_value_penalty.go', 'pf/vandeven.go', 'pfc/pairCorrelation.go'], [('BoundTransform.Forward, Backward', 'pf/boundTransform.go'), ('NegativeValuePenalty.Penalty, Evaluate', 'pf/negative_value_penalty.go'), ('NewVandeven, Eval', 'pf/vandeven.go'), ('SquareLattice2D, TriangularLattice2D', 'pfc/pairCorrelation.go')],
     ['pf.BoundTransform', 'pf.Vandeven', 'pfc.Peak'], 'arctan and tan enter through their ranges, monotonicity and being inverse to each other; Gamma and powers with a symbolic exponent are uninterpreted')

# -- more properties are appended here

TECH = 'contract-based deductive verification: weakest-precondition style symbolic execution of the go/ssa form of the real functions against contracts, obligations discharged by z3/cvc5/ring normalisation'


def main():
    with open('properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    nas = {x['property'] for x in NA}
    m = {'version': 1, 'setup_cmd': 'python3-vt setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                     'technique': TECH, 'level': 'proof',
                     'level_note': 'Every obligation generated from the current source is discharged; ' + p['note'] + '. Integers mathematical, floats as reals; trusted contracts of external functions are listed in the evidence. A labelled bounded conformance run on the compiled code supplies failing inputs.'}
                    for p in PROPS if p['id'] not in nas],
         'not_applicable': NA,
         'notes': 'Generated by tools/props.py. See DESIGN.md.'}
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
    open('MANIFEST.json', 'a').write('\n')


if __name__ == '__main__':
    main()
