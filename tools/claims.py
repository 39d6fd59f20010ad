TRUST = " Trusted: z3, the symbolic NumPy layer (validated against the real code on concrete cases every run), real arithmetic standing for floating point."
NP = "symbolic execution of the NumPy source, z3 decides"
TF = "symbolic execution of the TensorFlow graph traced from the source, z3 decides"
CLAIM = {
 "C01": (NP + " (free semigroup as z3 sequences)", "Bounded proof: every associative operator (the free semigroup is initial), every list length up to the stated bound, forward and reverse." + TRUST),
 "C02": (NP + " (linear real arithmetic, finite-domain states)", "Bounded proof over all costs, transition tables and initial states for the stated sizes and horizons." + TRUST),
}
CLAIM.update({
 "C03": (NP + " (linear real arithmetic, finite-domain states)", "Bounded proof over all costs, transition tables and initial states for the stated sizes and horizons." + TRUST),
 "C04": (TF + " (linear real arithmetic)", "Bounded proof over all costs for the stated sizes and horizons; the TensorFlow graph is traced from the source on every run." + TRUST),
 "C05": (NP + " (log-probabilities as reals; products in probability form)", "Bounded proof over all positive models and observation sequences of the stated sizes." + TRUST),
 "C06": (TF + " (log-probabilities as reals)", "Bounded proof over all positive models and observation sequences of the stated sizes; the TensorFlow graph is traced from the source on every run." + TRUST),
})
RAT = "; every obligation is an equality of rational functions put to z3 (nonlinear real arithmetic)"
CLAIM.update({
 "C07": (NP + RAT, "Bounded proof: for the stated dimensions and horizons, the named groups of problem data are symbolic reals (all data at once for the smallest sizes), the rest concrete generic rationals." + TRUST),
 "C08": (NP + RAT, "Bounded proof for the stated dimensions, horizons and symbolic groups; elements of the scan are executed from the source." + TRUST),
 "C10": (TF + RAT, "Bounded proof for the stated dimensions, horizons and symbolic groups; the TensorFlow graph is traced from the source on every run." + TRUST),
})
TFN = NP + "; TensorFlow graph traced from the source executed symbolically"
CLAIM.update({
 "C09": (TFN + RAT, "Bounded proof for the stated dimensions, horizons and symbolic groups, both libraries." + TRUST),
 "C11": (NP + RAT, "Bounded proof for the stated dimensions, horizons and symbolic groups." + TRUST),
 "C12": (TFN + RAT, "Bounded proof for the stated dimensions, horizons, block lengths and symbolic groups, both libraries." + TRUST),
 "C13": (TFN + RAT, "Bounded proof for the stated dimensions and an uninterpreted right-hand side." + TRUST),
 "C14": (NP + " (matrix exponentials as truncated power series in the step length, coefficients rational functions of the inputs)", "Bounded proof up to the stated series order for the stated dimensions." + TRUST),
})
SER = " (truncated power series in the step length with rational-function coefficients)"
CLAIM.update({
 "C15": (NP + SER, "Bounded proof of the order of agreement with the exact solution of the differential equations for the stated dimensions and symbolic groups." + TRUST),
 "C16": (NP + SER, "Bounded proof of the order of agreement for the stated dimensions, block layouts and symbolic groups." + TRUST),
 "C17": (TFN + SER, "Bounded proof that both libraries agree through the stated order for the stated dimensions, block layouts and symbolic groups." + TRUST),
 "C18": (TFN + " (uninterpreted integrator; Runge-Kutta as truncated power series)", "Bounded proof for the stated numbers of blocks, steps and iterations; for NumPy whatever the integrator." + TRUST),
})
CLAIM.update({
 "C19": (TFN + RAT, "Bounded proof for the stated dimensions and horizons with an uninterpreted nonlinear model." + TRUST),
 "C20": (TFN + "; JAX code on a symbolic jnp/lax/vmap/autodiff layer" + RAT, "Bounded proof for the stated numbers of steps and dimensions." + TRUST),
 "C21": (TFN + "; JAX code on a symbolic jnp/autodiff layer, line search by path exploration" + RAT, "Bounded proof for the stated dimensions, symbolic groups, iterations and halvings." + TRUST),
 "C22": (TFN + "; JAX code on a symbolic jnp layer; z3 linear and nonlinear real arithmetic", "Bounded proof for every value function on grids of the stated sizes; multi-block interpolation on three points for one or two free values." + TRUST),
 "C23": (TFN + "; JAX code on a symbolic jnp layer; z3 linear and nonlinear real arithmetic", "Bounded proof for every model table, value function and horizon at the stated grid sizes and step counts." + TRUST),
})
CLAIM.update({
 "C24": (NP + " (finite-domain characters, states and draws; linear and nonlinear real arithmetic)", "Bounded proof for every text, model order, error probability, scene and outcome of the random draws of the stated sizes." + TRUST),
 "C25": (NP + " on arrays with symbolic dimensions, paths explored at every comparison (linear integer arithmetic)", "Proof for all dimensions, for the stated horizons and enumerated configurations of constant, per-step and defaulted parameters." + TRUST),
 "C26": (TFN + "; JAX code on a symbolic jnp/autodiff layer; z3 nonlinear real arithmetic", "Bounded proof for the stated step counts and grid sizes; block values relative to the SQP iteration decided by C21." + TRUST),
})
CLAIM.update({
 "C27": (TFN + SER + "; rounding of the number of steps as symbolic relative errors", "Bounded proof for every trajectory, state, control and step length at the stated sizes." + TRUST),
})
CLAIM.update({
 "C28": (TFN + "; symbolic clock for the timing drivers" + RAT, "Bounded proof for the stated sizes; iterations and grid passes relative to the library routines decided by C19, C21, C22, C26." + TRUST),
})
NA = {}
