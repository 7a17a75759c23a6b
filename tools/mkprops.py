import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
                **({"observe_at":observe} if observe else {}),"hook_needed":None}})
M="lib/mpslib/mps.py"; F="lib/mpslib/mpsfunctions.py"; H="lib/mpslib/Hamiltonians.py"; E="lib/mpslib/engines.py"; L="lib/Lanczos/LanczosEngine.py"; NC="lib/ncon/ncon.py"; BU="lib/utils/binaryoperations.py"
p("C01","Moving the orthogonality centre never changes the state",
  "Moving the orthogonality centre of a (non-zero) matrix product state to any bond, without truncation, leaves every amplitude of the represented state unchanged, including the separately stored norm factor. Every tensor the centre moved past becomes an isometry pointing towards the centre, the new centre matrix has Frobenius norm 1, and tensors outside the traversed range are untouched. Bonds outside the chain are refused.",
  ["inputs","histories"],"all chain lengths, bond and physical dimensions, real and complex entries, start bond, target bond, and any sequence of moves",
  "Tests sweep a couple of random states of fixed size and compare observables; the invariant must hold for every tensor content, dimension, start/target pair and every history of moves.",
  [M,F],[("MPS.__position__ / MPS.position",M),("prepareTensor",F),("prepareTruncate",F)],["MPS.tolist()*Z","MPS.tensors","MPS.pos"],
  [("_tensors,_mat,_position,_Z","state = Z * T0..T(p-1) mat Tp..T(N-1)",M)])
p("C02","Tensor splits reconstruct their input and obey the truncation limits",
  "Splitting a site tensor (either direction) or a matrix returns factors whose product times the returned norm reproduces the input exactly when nothing is truncated; the outer factor is an isometry, the weight matrix is normalised, and for singular-value splits the weights are non-negative and non-increasing. With truncation, the retained singular values are exactly the leading ones allowed by the threshold and the maximal bond dimension (never more than the maximum, always at least one), factor shapes agree with the number retained, and the retained weights are renormalised to unit norm.",
  ["inputs"],"all tensors, shapes (tall, wide, square, dimension one), dtypes, directions, thresholds and maximal dimensions",
  "Tests run the splits only through sweeps of random square-ish tensors with default thresholds; shapes, ties at the threshold, and the two directions are not enumerated.",
  [F],[("prepareTensor",F),("prepareTensorSVD",F),("prepareTruncate",F),("svd",F),("qr",F),("fixPhase",F)],["return values"])
p("C03","Environment and effective-Hamiltonian contractions are the exact tensor networks",
  "Growing a left or right environment by one site, contracting a three-layer sandwich, and applying the effective Hamiltonian on a site, on two sites or on a bond compute exactly the tensor network they denote (ket un-conjugated, bra conjugated, operator contracted incoming-with-ket and outgoing-with-bra), with the documented output leg order. Consequently the energy of a state is independent of the cut at which left and right environments are joined.",
  ["inputs"],"all tensors, bond dimensions, MPO dimensions, physical dimensions, unit-cell lengths, real and complex data, different bra and ket",
  "DMRG tests compare only converged ground-state energies of two models; a wrong leg order or missing conjugation that vanishes for real symmetric data goes unnoticed.",
  [F],[("addLayer",F),("addELayer",F),("initializeLayer",F),("HAproductSingleSite",F),("HAproductSingleSiteMPS",F),("HAproductZeroSite/Mat",F),("HAproductBond/BondMatrix",F),("contractionH/contractionE",F),("contractMPO/contractE",F),("getL/getR/getUCL/getUCR",F)],["return values"])
p("C04","Transfer operators act as the mixed transfer matrix of the unit cell",
  "Applying a (mixed, unit-cell, pseudo or one-minus-pseudo) transfer operator from the left or right to a boundary vector equals contraction of that vector with the corresponding ket/conjugated-bra tensors in unit-cell order, with the dominant-eigenvector projection subtracted where the pseudo form says so and any momentum phase applied. The operators are linear in the vector, and left and right actions are adjoint to each other through the bilinear pairing of boundary vectors.",
  ["inputs"],"all tensors and unit cells, vector shapes, directions, real and complex data, momenta",
  "Tests use them through eigen-solvers on single random tensors and check only residuals for matching bra and ket.",
  [F],[("TransferOperator",F),("MixedTransferOperator",F),("GeneralizedMatrixVectorProduct",F),("UnitcellTransferOperator",F),("MixedUnitcellTransferOperator",F),("pseudoTransferOperator",F),("OneMinusPseudoTransferOperator",F),("pseudoUnitcellTransferOperator",F),("OneMinusPseudoUnitcellTransferOperator",F),("computeDensity",F)],["return values"])
p("C05","Overlaps are the inner product of the represented states",
  "The overlap of two open-boundary states equals the sum over configurations of the first state's amplitude times the complex conjugate of the second's, including norm factors, centre matrices and phases. It is conjugate-symmetric and sesquilinear, and computing it changes neither state.",
  ["inputs","histories"],"all pairs of states of equal length and physical dimensions, any bond dimensions, any position of the centre, real or complex",
  "Tests compute overlaps of normalised states only as an intermediate; phases carried in the 1x1 centre matrix and norm factors are invisible there.",
  [F,M],[("overlap",F),("MPS.dot",M)],["return value"])
p("C06","Expectation values equal those of the represented state",
  "Local, multi-site and per-site-list expectation values and matrix elements returned for an open-boundary state in canonical form equal the contraction of the represented amplitudes with the given operators (first operator index incoming/ket, second outgoing/bra), whatever the current centre position. Fermionic strings are inserted exactly between the operators they belong to, and measuring leaves the represented state unchanged.",
  ["inputs","histories"],"all states, operators (also complex, non-hermitian and non-square-free ones), sites, centre positions, norm factors",
  "Tests measure S_z on converged ground states with the centre at one end.",
  [M,F],[("MPS.measureLocal",M),("MPS.measureList",M),("MPS.measure",M),("MPS.measureMatrixElementList",M),("measureLocal",F),("matrixElementLocal",F),("measure",F)],["return value"])
p("C07","State arithmetic is vector arithmetic",
  "Adding, subtracting, negating, scaling and dividing open-boundary states, in place or not, yields states whose amplitudes are the corresponding vector operations on the operands' amplitudes, including norm factors, centre matrices and complex phases. Operands other than an in-place target are unchanged, and the list export of a state multiplies back to its amplitudes.",
  ["inputs","histories"],"all pairs of states with equal length and physical dimensions, any bond dimensions, dtypes, centre positions and scalars, and compositions of operations",
  "Tests add one random pair of states with canonical centre; mixed dtypes, displaced centres and repeated in-place operations are not reached.",
  [M,F],[("MPS.__add__/__iadd__/__sub__/__neg__/__mul__/__rmul__/__imul__/__truediv__/__idiv__",M),("addMPS",F),("directsum",F),("MPS.tolist",M)],["tolist()*Z"])
p("C08","Applying gates and operators to a state acts as the operator on its amplitudes",
  "Applying a one-site gate, or a matrix product operator, multiplies the represented amplitudes by that operator exactly; applying a two-site gate does so up to a positive normalisation when nothing is truncated. With truncation the retained bond dimension never exceeds the maximum, the reported discarded weight is the sum of the squares of the singular values cut by the maximum, and sites outside the support keep their role.",
  ["inputs","histories"],"all states, gates, sites, centre positions, bond limits and thresholds",
  "Tests exercise unitary spin-symmetric gates inside one TEBD run and compare to a loose tolerance.",
  [M,F],[("MPS.applyOneSiteGate",M),("MPS.applyTwoSiteGate",M),("MPS.applyMPO",M),("applyMPO",F)],["tolist()*Z","return value"])
p("C09","Model operators encode exactly their Hamiltonian",
  "For every supported model (transverse-field Ising, XXZ, spinless fermions, Hubbard, J-U-V, phi-four and discretised Lieb-Liniger chains), the matrix product operator built from site- and bond-dependent couplings represents exactly the documented sum of onsite and nearest-neighbour terms: every coupling appears once with its documented sign, factor and site, hermitian couplings give a hermitian operator, and the first and last tensors carry the open-boundary vectors (or the periodic bulk form). This holds for every chain length from two sites on.",
  ["inputs","configurations"],"all chain lengths, all coupling values (real, complex, inhomogeneous), both boundary conditions",
  "Tests use homogeneous chains of one length with real couplings; an index shift or a swapped coupling on one bond is invisible there.",
  [H],[("TFI",H),("TFI_2",H),("JessHamiltonian",H),("XXZ",H),("XXZflipped",H),("SpinlessFermions",H),("HubbardChain",H),("PhiFourmpo*",H),("LiebLinigermpo*",H),("LocalLiebLinigermpo / HomogeneousLiebLinigermpo",H),("projectedLiebLinigermpo",H),("MPO.fromlist/fromMPO",H)],["MPO tensors"])
p("C10","Two-site gates of an operator partition its Hamiltonian",
  "Splitting an open-boundary nearest-neighbour operator into two-site pieces distributes it completely and exactly once: the sum of the pieces over all bonds of the chain equals the full operator, each piece uses only the terms supported on its two sites, and the gate for a time step is the exponential of that step times the piece in matching index order.",
  ["inputs"],"all nearest-neighbour operators in the library's form, all chain lengths including two, all bonds, all step values",
  "Tests look only at a TEBD trajectory of one homogeneous chain with long-time tolerance.",
  [H],[("MPO.twoSiteGate",H)],["returned gate"])
p("C11","Network contraction is exact, order independent and side-effect free",
  "Contracting a labelled tensor network returns the Einstein sum over positive labels with open legs ordered by negative labels, for any valid contraction order, including disconnected pieces, partial traces, scalars and single tensors. Inputs (tensors, label lists, order lists) are not modified, and inconsistent labels or mismatched dimensions raise an error instead of returning a value.",
  ["inputs","schedules"],"all label networks, contraction orders, tensor entries and dimensions",
  "There are no tests of the contractor; it is exercised through a handful of fixed networks in default order.",
  [NC],[("ncon",NC),("connect_graph",NC),("create_order/create_forder",NC),("get_tcon/get_icon/get_pos/find_newv/renew_order",NC),("permute_final",NC),("do_check_indices",NC),("con/trace",NC)],["return value","arguments"])
p("C12","Time evolution applies the prescribed total time, whatever the checkpointing",
  "A second-order Trotter run of any number of steps applies each even bond gate and each odd bond gate for exactly the total simulated time, starting and ending with a half step of even bonds; a variational run advances every site tensor by the full step and every bond matrix backwards by it in the symmetric order, and all its solvers apply the exponential of step times effective Hamiltonian. The evolved state does not depend on verbosity or on whether and how often checkpoints are written, a checkpoint holds the state after a whole number of steps (so that resuming from it gives the same final state), and without keeping checkpoints only the latest one remains. Two consecutive runs compose, and the reported time and truncated weight accumulate over all steps.",
  ["inputs","schedules","histories"],"all chain lengths, step counts, time steps (real, imaginary), solvers, checkpoint intervals, verbosity levels and successive runs",
  "Tests run one chain with one step count, no checkpoints, verbosity one.",
  [E,F],[("TimeEvolutionEngine.__doTEBD__/doTEBD",E),("TimeEvolutionEngine.applyEven/applyOdd",E),("TimeEvolutionEngine.__doTDVP__/doTDVP",E),("TimeEvolutionEngine.time/truncatedWeight",E),("evolveTensor*/evolveMatrix*",F),("gexpmv","lib/mpslib/sexpmv.py")],["state after run","time","truncatedWeight","checkpoint files"])
p("C13","Engine environments always describe the current state",
  "Whenever an optimisation or time-evolution engine uses a left or right environment at a bond, it equals the contraction of the boundary with the current ket, operator and bra tensors up to that bond. This holds after moving the engine's centre, refreshing after external changes, truncating, and during complete sweeps. After an optimisation the state is normalised and canonical, the returned energy is the energy of that state, and shifting the unit cell of an infinite simulation represents the same infinite state.",
  ["histories","inputs"],"all chain lengths, sequences of moves, sweeps and refreshes, tensor contents and dimensions",
  "Tests observe only final energies, where stale environments are averaged out by repeated sweeps.",
  [E],[("Container.position",E),("Container.update",E),("Container.truncateMPS",E),("DMRGengine.__init__/__simulate__/__simulateTwoSite__",E),("IDMRGengine.__init__/__update__",E),("TimeEvolutionEngine.initializeTDVP/__doTDVP__",E)],["engine environments"])
p("C14","Krylov solvers satisfy their recurrences",
  "For a hermitian operator, the tridiagonal matrix built by the Lanczos iteration is the projection of the operator onto orthonormal Krylov vectors starting with the normalised initial vector: each new direction, times its coefficient, is the operator applied to the previous vector minus its recurrence terms. Returned eigenvectors and time-evolved vectors are exactly the corresponding combinations of those basis vectors, and the caller's initial vector is not modified.",
  ["inputs"],"all hermitian operators given as functions, all start vectors, Krylov sizes, real and complex time steps, with and without re-orthogonalisation",
  "Tests only compare lowest energies of one model against ARPACK.",
  [L],[("LanczosEngine.__simulate__",L),("LanczosTimeEvolution.__doStep__",L)],["return values"])
p("C15","Bit operations and the fixed-particle-number basis are exact",
  "Setting, clearing, flipping and reading a bit affects and reports exactly that bit for every 64-bit unsigned integer and position. The fixed-number basis enumerates every N-bit integer (N up to 64) with the requested number of set bits exactly once and nothing else.",
  ["inputs"],"all non-negative integers, bit positions, chain lengths and particle numbers",
  "There are no tests of the bit helpers.",
  [BU],[("setBit/unsetBit/flipBit/getBit",BU),("binarybasis",BU)],["return values"])
p("C16","Saving, loading and copying preserve the state and isolate it",
  "A state that is saved and loaded, or copied, has the same amplitudes, boundary condition, centre position, norm factor, dimension limit and dtype as the original. Subsequent in-place operations on one of them never change the other.",
  ["inputs","histories"],"all states (open and periodic), centre positions, norm factors, subsequent operation sequences",
  "Tests never load a state and copy only open-boundary ones.",
  [M,E],[("MPS.copy",M),("MPS.save/load",M),("Container.save/load",E)],["all public attributes"])
p("C17","The canonical form reproduces the state",
  "Bringing an open-boundary state (or list of tensors) into Gamma-Lambda form yields non-negative, normalised Schmidt vectors and site tensors such that the product of all Gammas and Lambdas equals the represented state up to a scalar factor, with one more Lambda than sites. Left- and right-absorbing the Lambdas gives left- and right-isometric tensors; for a unit cell of an infinite state they generate the same infinite state.",
  ["inputs","histories"],"all open-boundary states and injective unit cells, lengths, dimensions, dtypes and centre positions",
  "Tests canonise one random state with the centre at the end.",
  [F,M],[("canonizeMPS",F),("MPS.canonize",M)],["gamma and lambda lists"])
p("C18","Regauging an infinite unit cell is a gauge transformation to isometric form",
  "Regauging a translation-invariant unit cell returns tensors that are related to the originals by an invertible gauge matrix on the cell boundary up to a positive normalisation, so all transfer-matrix spectra and observables are preserved. In left (right) form every tensor is a left (right) isometry; in symmetric form the returned bond matrix is diagonal, non-negative and normalised, and it turns the left form into the right one.",
  ["inputs"],"all unit cells (injective), lengths, dimensions, dtypes and the three gauge choices",
  "Tests regauge a few random unit cells and look only at isometry residuals.",
  [F,M],[("regaugeIMPS",F),("regauge",F),("MPS.regauge",M)],["tensors","bond matrix"])
p("C19","Truncation keeps the dominant Schmidt components within the requested limit",
  "Truncating an open-boundary state to a maximal bond dimension or threshold leaves all bond dimensions within the limit, keeps site tensors in canonical form, and discards only the smallest Schmidt values at each bond. If nothing falls below the limits the represented state is unchanged, and periodic truncation returns consistent connecting matrices.",
  ["inputs","histories"],"all states, centre positions, limits and thresholds",
  "Tests truncate one random state once and check only overlaps near one.",
  [M,F],[("MPS.truncate",M),("MPS.position with D/schmidt_thresh",M),("truncateMPS",F)],["bond dimensions","tolist()*Z"])
p("C20","Variational optimisation converges to the ground state",
  "For a gapped nearest-neighbour Hamiltonian and sufficient bond dimension and sweeps, the finite and infinite optimisers converge to the ground-state energy within the requested tolerance.",
  ["inputs"],"all gapped models, initial states and solver settings",
  "Tests check three models at one parameter point.",
  [E,F],[("DMRGengine.simulate",E),("IDMRGengine.simulate",E),("VUMPSengine.simulate",E)],["energy"])
p("C21","Time evolution is accurate to the order of its integrator",
  "The global error of second-order Trotter evolution and of the variational time evolution decreases with the step size at the order of the integrator, for any nearest-neighbour Hamiltonian.",
  ["inputs","schedules"],"all models, initial states and step sizes",
  "Tests compare one trajectory with exact diagonalisation at one step size.",
  [E,F],[("TimeEvolutionEngine.doTEBD",E),("TimeEvolutionEngine.doTDVP",E)],["observables in time"])
p("C22","Environments of an infinite system hold the energy per cell exactly once",
  "The left (right) environment computed for an isometric unit cell of an infinite system with a translation-invariant operator changes, when grown by one unit cell, by exactly the energy per unit cell times the identity, and the returned energy equals the expectation value of all terms of one cell, counted once. The energy part solves its linear equation with the steady-state component projected out. Left and right environments report the same energy, and regauging while computing them does not change the state. The environments a uniform optimiser (VUMPS, gradient) builds from its current tensors obey the same growth rule in every iteration.",
  ["inputs"],"all injective unit cells, lengths, dimensions, dtypes, nearest-neighbour operators in lower-triangular form (dimensions may differ from site to site) and both directions; for the state-level call, states that are regauged by it or already in symmetric gauge",
  "Tests check the single-site solver residual for one tensor and only converged energies of infinite optimisations, in which a constant or boundary contribution cancels.",
  [F,E],[("VUMPSengine.__doStep__",E),("HomogeneousIMPSengine.__doGradStep__",E),("computeUCsteadyStateHamiltonianGMRES",F),("getBoundaryHams",F),("TDVPGMRESUC",F),("RENORMBLOCKHAMGMRES/TDVPGMRES",F),("OneMinusPseudo*TransferOperator",F),("initializeLayer/addLayer",F)],["return values"])
p("C23","A newly created state is the one its constructor describes",
  "A product state has exactly the product of the given local states as amplitudes, with trivial bonds; a zero local state is refused. A state made from a list of tensors (and optionally a bond matrix), a random state and the state with equal entries have the requested length, local dimensions, boundary condition, dtype and at most the requested bond dimension, are normalised and canonical with the centre at the right end, and a state from a list (or with equal entries) is a positive multiple of the contracted tensors. No array of the caller is changed or kept. The shape queries (length, bond and local dimensions, limit, dtype, boundary, centre), the Schmidt values at a bond and the deviation from orthonormality describe the represented state and leave it unchanged. States that are zero are outside the guarantee.",
  ["inputs"],"all lengths, local dimensions (uniform or per site), bond dimensions, boundary conditions, dtypes, local states, tensors and bond matrices, scalings and shifts",
  "Tests use random states as input and look only at what later algorithms make of them; a wrong factor, phase, dtype or gauge in a constructor is normalised away or never compared.",
  [M,F],[("MPS.__init__",M),("MPS.fromList/random/ones/productState",M),("MPS.getSchmidt/ortho/D/d",M),("MPSinitializer",F)],["dense amplitudes","public attributes","getSchmidt"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
