"""Writes properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json
import os

P = []


def prop(id, title, statement, over, q, why, files, mech, observe, state=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": q},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": state or [],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Conjugate steps draw from the exact conditional posterior",
    "When a sampler updates the latent of a beta-binomial, gamma-Poisson or beta-negative-binomial model in closed form, the update draws from exactly the conditional distribution of the latent given the observed counts and its prior parameters. This holds for every admissible parameter and count, and for every shape: one latent shared by several observations, one latent per observation, and prior parameters or trial numbers that vary by element.",
    ["inputs", "programs"],
    "all positive prior parameters, all counts and trial numbers, all broadcastings of the observations against the latent",
    "the tests compare one graph shape symbolically or one data set with a loose tolerance; they use one scalar latent and never several observations per latent",
    ["aemcmc/conjugates.py", "aemcmc/rewriting.py", "aemcmc/basic.py"],
    [
        ("gamma_poisson_conjugateo", "aemcmc/conjugates.py"),
        ("beta_binomial_conjugateo", "aemcmc/conjugates.py"),
        ("beta_negative_binomial_conjugateo", "aemcmc/conjugates.py"),
    ],
    ["the sampling step returned by construct_sampler"],
)
prop(
    "C02",
    "Gaussian samplers have exactly the documented mean and covariance",
    "The two structured multivariate normal samplers and the normal-regression posterior return a draw that is exactly Gaussian with the documented mean and covariance: N(Q^-1 b, Q^-1), N(L^-1 Phi' Omega t, L^-1) with L = diag(A) + Phi' Omega Phi, and the posterior of regression coefficients with independent zero-mean normal priors (given by their inverse standard deviations) and observation precisions omega. This holds for all admissible inputs, dense or sparse, with more rows than columns or more columns than rows.",
    ["inputs", "configurations"],
    "all positive definite inputs and all data, both shape regimes",
    "the tests compare sample moments for one matrix per function with tolerances that hide a wrong scale",
    ["aemcmc/dists.py", "aemcmc/gibbs.py"],
    [
        ("multivariate_normal_rue2005", "aemcmc/dists.py"),
        ("multivariate_normal_cong2017", "aemcmc/dists.py"),
        ("normal_regression_posterior", "aemcmc/gibbs.py"),
    ],
    ["the returned tensor as a function of the random draws"],
)
prop(
    "C03",
    "Logistic-regression coefficient update is an exact Gibbs step",
    "For a Bernoulli regression whose coefficients have independent zero-mean normal priors, the coefficient update draws Polya-Gamma auxiliaries with the parameters that the current coefficients imply and then the coefficients from exactly their Gaussian conditional given the auxiliaries and the observed labels. It leaves the posterior of the coefficients invariant for every design matrix, every label vector, every prior scale and every current value.",
    ["inputs", "histories"],
    "all design matrices, labels, prior standard deviations and current coefficient values",
    "one simulated data set, posterior mean within 0.5",
    ["aemcmc/gibbs.py", "aemcmc/dists.py"],
    [
        ("bern_normal_posterior", "aemcmc/gibbs.py"),
        ("bern_logistic_finder", "aemcmc/gibbs.py"),
    ],
    ["the coefficient update as a function of the random draws"],
)
prop(
    "C04",
    "Negative-binomial coefficient update is an exact Gibbs step",
    "For a negative-binomial regression whose coefficients have independent zero-mean normal priors, the coefficient update draws Polya-Gamma auxiliaries with the parameters that the observed counts, the dispersion and the current coefficients imply, and then the coefficients from exactly their Gaussian conditional given the auxiliaries. It leaves the posterior of the coefficients given counts and dispersion invariant for every design matrix, count vector, dispersion, prior scale and current value.",
    ["inputs", "histories"],
    "all design matrices, counts, dispersions (scalar or per observation), prior standard deviations and current coefficient values",
    "one simulated data set with a very flat prior, posterior mean within 0.1",
    ["aemcmc/gibbs.py", "aemcmc/dists.py"],
    [
        ("nbinom_normal_posterior", "aemcmc/gibbs.py"),
        ("nbinom_logistic_finder", "aemcmc/gibbs.py"),
    ],
    ["the coefficient update as a function of the random draws"],
)
prop(
    "C05",
    "Negative-binomial dispersion update is an exact Gibbs step",
    "The Chinese-restaurant-table draw for count y and concentration h has exactly the CRT(y, h) distribution, independently for each observation. The dispersion update of a negative-binomial model with a gamma prior then draws from exactly the gamma conditional of the dispersion given the table counts, the success probabilities and the prior, so that the dispersion's posterior is invariant for all counts, probabilities, prior parameters and current values.",
    ["inputs", "histories"],
    "all counts up to the bound, all positive dispersions and prior parameters, all success probabilities",
    "the mean of the table count at four points; the dispersion chain on one data set within 10%",
    ["aemcmc/gibbs.py"],
    [
        ("sample_CRT", "aemcmc/gibbs.py"),
        ("nbinom_dispersion_posterior", "aemcmc/gibbs.py"),
    ],
    ["the table counts and the dispersion update as functions of the random draws"],
)
prop(
    "C06",
    "Horseshoe shrinkage update is an exact Gibbs step",
    "The update of the local and global shrinkage parameters of a horseshoe prior draws auxiliary inverse-gamma variables and then both parameters from exactly their conditionals under the inverse-gamma mixture representation of the half-Cauchy priors. It therefore leaves the posterior of the shrinkage parameters given the coefficients invariant, for all coefficient values, scales and current shrinkage values and any number of coefficients.",
    ["inputs", "histories"],
    "all coefficients, variances and current shrinkage values; number of coefficients up to the bound",
    "a regression chain on one data set whose medians need only be within 50%",
    ["aemcmc/gibbs.py"],
    [
        ("horseshoe_posterior", "aemcmc/gibbs.py"),
        ("normal_horseshoe_finder", "aemcmc/gibbs.py"),
    ],
    ["the shrinkage updates as functions of the random draws"],
)
prop(
    "C07",
    "FFBS draws state sequences from the exact smoothing distribution",
    "Forward-filtering backward-sampling returns each state sequence with exactly its posterior probability given all observations, under the given initial probabilities, transition matrices (one per time point, or one for all) and per-state log-likelihoods. This holds for every number of states and time points, every admissible probability and likelihood value and whatever the numerical rescaling does, and the result has one state per observation in time order.",
    ["inputs", "histories"],
    "all initial and transition probabilities, likelihoods and rescaling patterns, for state and sequence sizes up to the bound",
    "the tests run one or two chains and compare against a known state sequence; asymmetric and time-varying cases are sampled only once",
    ["aemcmc/ffbs.py"],
    [("ffbs_step", "aemcmc/ffbs.py")],
    ["the returned state sequence and the probabilities of the categorical draws"],
)
prop(
    "C08",
    "Specialised updates are assigned only where they are exact",
    "A latent variable gets a closed-form or Gibbs update only when the model really has the form that update assumes: the right prior family and parameters (zero mean, unit half-Cauchy scales, the negated linear predictor), and no other variable of the model depending on the latent in a way the update ignores. Every other latent gets a NUTS update, and constructing the sampler does not fail merely because a model resembles a supported form.",
    ["programs"],
    "all models of the zoo's families, with symbolic parameters: near misses of every supported pattern and latents with several children",
    "tests build only models that match, plus a few that are obviously different",
    ["aemcmc/gibbs.py", "aemcmc/conjugates.py", "aemcmc/rewriting.py", "aemcmc/basic.py"],
    [
        ("horseshoe_match", "aemcmc/gibbs.py"),
        ("bern_sigmoid_dot_match", "aemcmc/gibbs.py"),
        ("nbinom_sigmoid_dot_match", "aemcmc/gibbs.py"),
        ("sampler_finder", "aemcmc/rewriting.py"),
        ("construct_sampler", "aemcmc/basic.py"),
    ],
    ["the sampling steps returned by construct_sampler"],
)
prop(
    "C09",
    "One sweep composes the updates as a valid Gibbs scan",
    "In the sampler built for a model with several latents, every update uses, for each other latent, the value already updated in this sweep if its update came earlier and the initial value otherwise, and the observed value for every observed variable, including through deterministic expressions. No update result depends on a draw from the prior, each latent gets exactly one update, and every latent has an initial-value variable of its own type; apart from those, the updates read no value of a latent.",
    ["programs", "histories"],
    "all models of the zoo (conjugate, horseshoe, regression, mixed with NUTS), all initial and observed values",
    "the tests check one two-latent model's graph and chain means",
    ["aemcmc/basic.py", "aemcmc/rewriting.py"],
    [("construct_sampler", "aemcmc/basic.py")],
    ["sampling steps, initial-value map and updates returned by construct_sampler"],
)
prop(
    "C10",
    "NUTS updates target the model's conditional density",
    "The log-density handed to the NUTS kernel for the variables it samples is, up to an additive constant, the log of the model's joint density given the observed and previously updated values, including the change-of-variables term of the unconstraining transforms. The initial state is the image of the variables' current values, and the values returned are the inverse images of the kernel's result, each in the support and shape of its own variable; the step-size and mass-matrix parameters returned are those the kernel uses.",
    ["inputs", "programs"],
    "all values, all models of the zoo: unconstrained, positive, unit-interval and bounded variables, scalars and vectors, alone and together with closed-form updates",
    "the tests run short chains for a normal and for one two-variable model",
    ["aemcmc/nuts.py", "aemcmc/basic.py"],
    [
        ("step", "aemcmc/nuts.py"),
        ("construct_sampler", "aemcmc/nuts.py"),
        ("transform_forward", "aemcmc/nuts.py"),
        ("transform_backward", "aemcmc/nuts.py"),
    ],
    ["the log-density function and initial state the kernel receives, the returned values and parameters"],
)
prop(
    "C11",
    "Every sweep consumes fresh, independent randomness",
    "When the returned updates are compiled with aesara.function, every random draw made during a sweep uses a random state no other draw of that sweep uses, and the states left behind are ones not consumed before, so that no draw is repeated within a call or in any later call. This holds for whichever subset of the steps is compiled and for any number of successive calls.",
    ["histories", "configurations"],
    "all subsets of compiled steps and all sequences of calls up to the bound, for every sampler of the zoo",
    "tests only check that chains move; a repeated or shared stream still moves",
    ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/nuts.py", "aemcmc/ffbs.py", "aemcmc/sample.py"],
    [
        ("update plumbing of sampling steps", "aemcmc/basic.py"),
        ("dispersion kernel updates", "aemcmc/gibbs.py"),
        ("NUTS kernel updates", "aemcmc/nuts.py"),
    ],
    ["states of the shared random generators read and written by compiled functions"],
)
prop(
    "C12",
    "Internal representation and its expansion keep the model's meaning",
    "Converting a model to the internal representation (cloning, canonicalisation, subsuming broadcasts into element-wise operations) and expanding it again keeps the value of every random and deterministic expression, for the same draws and inputs. The mappings between original and internal variables are complete and correct, observed values are attached to the right variables, and nothing remains subsumed after expansion.",
    ["programs", "inputs"],
    "all input values, for a family of models covering broadcasts, transposes, constants, shared variables and repeated inputs",
    "tests look at one or two graphs and at op types",
    ["aemcmc/rewriting.py", "aemcmc/utils.py"],
    [
        ("construct_ir_fgraph", "aemcmc/rewriting.py"),
        ("local_elemwise_dimshuffle_subsume", "aemcmc/rewriting.py"),
        ("SubsumingElemwise", "aemcmc/rewriting.py"),
        ("inline_SubsumingElemwise", "aemcmc/rewriting.py"),
    ],
    ["values of the rewritten graphs' variables"],
)
prop(
    "C13",
    "Reparametrisation relations preserve the distribution",
    "Applying a reparametrisation relation in either direction yields an expression with the same distribution as the original: centred and non-centred forms of every location-scale family, and the inverse-gamma with unit shape as the reciprocal of an exponential. Shape, element independence and parameters are preserved for every location, scale and size, and the relations do not apply to other distributions.",
    ["inputs", "programs"],
    "all locations, scales and sizes, every family in the relation, both directions",
    "tests compare graph structure for two expressions",
    ["aemcmc/transforms.py"],
    [
        ("location_scale_transform", "aemcmc/transforms.py"),
        ("invgamma_exponential", "aemcmc/transforms.py"),
    ],
    ["law of the produced expression as a function of its draws"],
)
prop(
    "C14",
    "Model metadata is consistent and rejects ambiguous names",
    "Model metadata can be created exactly when every variable it tracks (random, value and deterministic variables) has a non-empty name and no two different variables share one; otherwise a ValueError is raised. When created, values-to-variables inverts variables-to-values, observed and unobserved variables partition the random variables in the given order with their matching values, and every tracked variable is found under its own name.",
    ["inputs"],
    "all assignments of names (any strings or none) to the variables, all sets of observed and deterministic variables up to the bound",
    "tests try three name assignments on one model",
    ["aemcmc/utils.py"],
    [("ModelInfo.__post_init__", "aemcmc/utils.py")],
    ["attributes of the created object or the exception raised"],
)
prop(
    "C15",
    "Prior sampling draws whole, independent model replicates",
    "Sampling a prior n times returns, for each requested variable, n draws in which all variables of one replicate come from one joint evaluation of the model (shared ancestors shared, parameters applied as written), different replicates use different random states, and the returned updates advance every random state used so that another call continues with new states. This holds for every set of requested variables, however they are related.",
    ["programs", "histories"],
    "all models of the zoo, all numbers of replicates and calls up to the bound, all parameter values",
    "one test looks at one model's variance",
    ["aemcmc/sample.py", "aemcmc/utils.py"],
    [
        ("sample_prior", "aemcmc/sample.py"),
        ("get_rv_updates", "aemcmc/utils.py"),
    ],
    ["returned samples and updates"],
)
prop(
    "C16",
    "Sampler construction does not depend on hash or memory order",
    "Constructing a sampler twice for the same model yields the same updates in the same scan order with the same parameter layout, whatever the hash values of the objects or the order in which the interpreter iterates over sets. The positions of the variables inside joint NUTS states follow the model's variable order.",
    ["schedules", "programs"],
    "all iteration orders of every set the construction builds",
    "tests run under one hash seed and never compare two constructions",
    ["aemcmc/basic.py", "aemcmc/nuts.py", "aemcmc/rewriting.py"],
    [("construct_sampler", "aemcmc/basic.py")],
    ["order of the sampling steps, NUTS state layout"],
)
prop(
    "C17",
    "Building samplers leaves the user's model untouched",
    "Constructing a sampler, converting a model to the internal representation, building prior samples or model metadata does not change the user's graph: every variable keeps its inputs, names, values and shared state, the mapping passed in keeps its items, and the same model can be used again with the same result.",
    ["programs", "histories"],
    "all models of the zoo, all input values, repeated construction",
    "no test inspects the model after constructing a sampler",
    ["aemcmc/basic.py", "aemcmc/rewriting.py", "aemcmc/nuts.py", "aemcmc/sample.py"],
    [
        ("construct_ir_fgraph cloning", "aemcmc/rewriting.py"),
        ("FunctionGraph without cloning", "aemcmc/basic.py"),
    ],
    ["the user's graph before and after, prior samples of it, a second construction"],
)
prop(
    "C18",
    "Polya-Gamma variables pass their parameters and generator through",
    "A Polya-Gamma variable draws each element from PG(h, z) with that element's shape and tilt after broadcasting, defaults to PG(1, 0), uses the generator it is given (and only that one), and returns values of the requested size in the configured float type. Changing which parameter is the shape and which is the tilt, or sharing one draw between elements, never happens for any broadcasting of the parameters.",
    ["inputs", "configurations"],
    "all parameter values and broadcast patterns up to the bound, all sizes, both generator kinds",
    "tests check sizes for a few parameters and one mean",
    ["aemcmc/dists.py"],
    [("PolyaGammaRV", "aemcmc/dists.py")],
    ["arguments received by the Polya-Gamma generator and the values returned"],
)
prop(
    "C19",
    "Sampler stages list every update once, in scan order",
    "The stages of a sampler partition the updated variables: each kernel maps to exactly the variables it updates, each variable appears in one stage, and stages and the variables inside them follow the order of the sampling steps. An update that uses the new value of another variable is listed after that variable, one that uses its old value before it. Parameters are keyed by kernels that are among the stages.",
    ["programs", "inputs"],
    "all assignments of up to five updates to kernels, and the samplers of the zoo",
    "one test looks at one sampler's stages",
    ["aemcmc/types.py", "aemcmc/basic.py"],
    [("Sampler.__post_init__", "aemcmc/types.py")],
    ["Sampler.stages, Sampler.parameters"],
)
prop(
    "C20",
    "Updates stay finite in floating point",
    "For finite inputs of any magnitude the compiled updates return finite values inside the support of their variables; intermediate Cholesky factorisations, linear solves and exponentials do not overflow, underflow or lose positive definiteness.",
    ["inputs"],
    "all finite floating-point inputs",
    "tests use well-scaled data",
    ["aemcmc/dists.py", "aemcmc/gibbs.py", "aemcmc/ffbs.py"],
    [("multivariate_normal_rue2005", "aemcmc/dists.py"), ("ffbs_step rescaling", "aemcmc/ffbs.py")],
    ["values returned by compiled updates"],
)
prop(
    "C21",
    "The NUTS kernel leaves its target invariant",
    "One application of the NUTS kernel to a value distributed according to the target density returns a value distributed according to the same density, for every step size and mass matrix.",
    ["inputs", "histories"],
    "all densities, step sizes, mass matrices and random streams",
    "tests run short chains",
    ["aemcmc/nuts.py"],
    [("aehmc NUTS kernel", "aehmc (third party)")],
    ["the kernel's result"],
)

prop(
    "C22",
    "How data are supplied does not change the sampler",
    "Observations, hyper-parameters and design matrices may be given as symbolic inputs, as shared variables or as constants: construct_sampler assigns the same kinds of updates in the same order, with the same generators and kernel parameters, and for equal values of the data every update is the same function of the current values and the random draws. Data in shared variables are never updated by the sampler and keep their values and their own default updates, and a sampler follows the values the shared variables have when it runs.",
    ["inputs", "programs", "configurations"],
    "all models of a set, every piece of data in each of the three forms, all real values of the data",
    "tests pass data as symbolic inputs or constants, in one form per model",
    ["aemcmc/basic.py", "aemcmc/gibbs.py", "aemcmc/rewriting.py", "aemcmc/types.py", "aemcmc/nuts.py", "aemcmc/utils.py"],
    [("get_explicit_inputs", "aemcmc/utils.py"), ("SamplingStep.__init__", "aemcmc/types.py"), ("local_elemwise_dimshuffle_subsume", "aemcmc/rewriting.py")],
    ["samplers constructed for the three forms of one model, the shared variables before and after"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
