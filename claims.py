"""The claims: source of properties.jsonl and MANIFEST.json (see gen.py), and
of the assumptions every evidence file repeats."""
STD, EXT, UTL = "src/kalmankit/standard.py", "src/kalmankit/extended.py", "src/kalmankit/utils.py"
EXACT = ("values are exact real numbers (plus NaN): floating-point rounding, overflow and infinities are outside; "
         "the encoding is regenerated from the source in /repo on every run")
LINALG = "numpy.linalg.solve/inv/pinv stand for the exact inverse of a non-singular matrix"
COVS = "covariance inputs are symmetric; positive definite where a proof needs an inverse to exist, otherwise semi-definite (stated per scenario)"
SHAPES = "inputs have the documented shapes with at least one time step and one row per time step; ragged, empty and list inputs are outside"
SMOOTH = "models are generic functions: callbacks are uninterpreted functions of their arguments"
IN, HI, CF = "inputs", "histories", "configurations"
PRED_S, UPD_S, FIL_S, SMO_S = [("%s of KalmanFilter" % w, STD) for w in ("predict", "update", "filter", "smooth")]
PRED_E, UPD_E, FIL_E, SMO_E = [("%s of ExtendedKalmanFilter" % w, EXT) for w in ("predict", "update", "filter", "smooth")]
CHK, NAN = ("check_none_and_broadcast", UTL), ("is_nan_all", UTL)
TESTS = "The existing tests compare a few fixed numeric runs with stored values; "

P = {}


def claim(pid, title, statement, over, text, why, mech, assume=(), outside="", note=""):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, mech=mech,
                  assume=[EXACT] + list(assume), outside=outside, note=note)


claim("C01", "Linear prediction is the exact Gauss-Markov propagation",
      "A prediction step of the standard filter returns the mean A x + B u and the covariance A P A' + Q for the matrices it is given, "
      "and just A x when the control matrix or the control vector is absent (None) or entirely NaN. It records no gain.",
      [IN], "every real A, x, B, u, P, Q; state size 1-4, 6, 8 (thorough 12), control size 1-5; control given, NaN or None; two calls in a row differing in any one argument, new or refilled in place",
      TESTS + "they reach one or two transition matrices, never a general one, and check rounded totals.", [PRED_S, NAN], [COVS])
claim("C02", "Linear update is Gaussian conditioning on the observation",
      "An update step of the standard filter returns the mean and covariance of the state conditioned on the observation: with S = H P H' + R and "
      "K = P H' S^-1 they are x + K (z - H x) and (I - K H) P, and K is appended to the gain list. Scalar observations and scalar noise mean the same as one-element ones.",
      [IN], "every H, x, P, z, R; state size 1-6 and 8 (thorough 10), observation size 1-5 (6), also more sensors than states; scalar z and R; two calls in a row differing in any one argument",
      TESTS + "no test varies H, P and R together or uses more than two sensors.", [UPD_S], [COVS, LINALG])
claim("C03", "Filtering alternates predict and update at every time step",
      "Filtering a series returns, for every time step k, the mean and covariance obtained from the initial ones by alternating prediction with A_k, B_k, u_k, Q_k "
      "and update with H_k, R_k, z_k, whatever the length and the sizes. One-dimensional series of Z, Q or R and a 1x1 initial mean mean the same as the equivalent matrices.",
      [IN, CF], "every time-varying linear model and data, N up to 70 (n = 2; thorough 130), 260 (n = 1; thorough 600), n up to 5 (6), m up to 4; with and without control; Q possibly zero; all documented array forms",
      TESTS + "their models are time-invariant, so a wrong time index or a step skipped for some length or size goes unseen.", [FIL_S, PRED_S, UPD_S], [COVS, LINALG, SHAPES])
claim("C04", "Smoothing is the exact RTS backward pass",
      "Smoothing a series returns, for every time step, the Rauch-Tung-Striebel mean and covariance: the last equal the filtered ones, and each earlier one corrects "
      "the filtered one by P_k A_{k+1}' (A_{k+1} P_k A_{k+1}' + Q_{k+1})^-1 times the difference between the next smoothed and predicted values, control included.",
      [IN, CF], "as C03", TESTS + "their models are time-invariant, so a smoother that used the wrong time index, noise or control would pass.",
      [SMO_S, FIL_S, PRED_S], [COVS, LINALG, SHAPES, "predicted covariances are non-singular"])
claim("C05", "Extended steps linearise at the right point",
      "The extended filter's prediction returns f(x, u) with covariance F P F' + Q where F is the transition Jacobian evaluated at that same x and u; its update conditions on "
      "z - h(x) with the observation Jacobian evaluated at the prior mean, and appends the gain. The callbacks are called with exactly these arguments.",
      [IN], "every function f, h and Jacobian (uninterpreted), every x, P, Q, R, z, u; state size 1-5 and 8, observation size 1-5; two calls in a row differing in any one argument",
      TESTS + "they use one model whose Jacobian hardly changes over a step, which hides a Jacobian taken at the wrong point.", [PRED_E, UPD_E], [COVS, LINALG, SMOOTH])
claim("C06", "Extended filtering is the EKF recursion at every time step",
      "Filtering a series with the extended filter returns, for every time step, the mean and covariance obtained by alternating the extended prediction (with u_k, Q_k) and update "
      "(with z_k, R_k) from the initial ones. One-dimensional Z and R series mean the same as the matrix forms.",
      [IN, CF], "every f, h, Jacobians (uninterpreted) and data, N up to 130 (n = 1), 20 (n = 2; thorough 30), n up to 4 (5), m up to 3", TESTS + "one pendulum run, with one set of noises.",
      [FIL_E, PRED_E, UPD_E], [COVS, LINALG, SMOOTH, SHAPES])
claim("C07", "Extended smoothing is the extended RTS backward pass",
      "Smoothing with the extended filter returns, for every time step, the extended RTS estimate: the last equals the filtered one and each earlier one corrects the filtered one using f and its Jacobian "
      "evaluated at the filtered mean of that step with the control and process noise of the following step.",
      [IN, CF], "as C06", TESTS + "a Jacobian taken at a smoothed or predicted mean, or noise of the wrong step, changes the stored totals hardly or not at all.",
      [SMO_E, FIL_E, PRED_E], [COVS, LINALG, SMOOTH, SHAPES, "predicted covariances are non-singular"])
claim("C08", "The extended filter on a linear model is the standard filter",
      "For a linear or affine model the extended filter and the standard filter return the same states and covariances, and record the same gains, in filtering and in smoothing.",
      [IN, CF], "every time-varying linear or affine model and data, N up to 20 (n = 2), 130 (n = 1), n up to 4, m up to 3; with and without control",
      "No test runs the two implementations against each other.", [FIL_S, SMO_S, FIL_E, SMO_E], [COVS, LINALG, SHAPES])
claim("C09", "Absent controls change nothing, present ones are never ignored",
      "A control that is absent - U or B None, or a row or matrix entirely NaN - has the same effect as no control at that step, in filtering, smoothing and single predictions, and extended callbacks then receive "
      "either nothing usable or an all-NaN vector. A control that is present at a step (also zero or partly NaN) enters that step's prediction as B u, whatever the other steps hold.",
      [IN, HI], "every model and data; every pattern of absent rows over N up to 3-5 steps (thorough 6), a single absent or single present row anywhere in 16 (60); per-element NaN patterns for single steps, n and p up to 2 (4), and for one row within runs of 2-3 steps",
      "Tests only use series with no control at all or full control.", [PRED_S, FIL_S, SMO_S, FIL_E, CHK, NAN], [COVS, LINALG, SHAPES])
claim("C10", "Covariances stay symmetric and PSD; updates only reduce them",
      "Every predicted and updated covariance of either filter is symmetric and positive semi-definite, an update never increases the covariance (prior minus posterior is PSD), and prediction with noise Q is at least Q. "
      "With positive definite measurement noise no step fails for want of an inverse.",
      [IN], "every model, data and semi-definite P, Q; single steps n up to 4 (5), m up to 3; runs of N up to 12 (n = 1) and 2 (n = 2, 3; thorough 3)",
      "An order relation over all inputs; tests check none.", [PRED_S, UPD_S, PRED_E, UPD_E, FIL_S, FIL_E], [COVS, LINALG, SMOOTH])
claim("C11", "Smoothing never increases uncertainty",
      "For every time step of either filter the smoothed covariance is symmetric, positive semi-definite and no larger than the filtered one; they are equal at the last step.",
      [IN], "every model and data with positive definite predicted covariances; N up to 8 (n = 1), 3 (n = 2; thorough 4)", "An order relation over all inputs; the tests compare totals only.",
      [SMO_S, SMO_E, FIL_S, FIL_E], [COVS, LINALG, SMOOTH])
claim("C12", "The filtered estimate is the conditional mean given the data so far",
      "For every linear Gaussian model the filtered mean at step k is the conditional mean of the state given observations 1..k: its error is uncorrelated with each of them, and the reported covariance is the covariance of that error.",
      [IN], "every time-varying linear model (semi-definite Q); N up to 8 (n = 1), 3 (n = 2; thorough 4), n and m up to 3", "Tests compare with stored numbers; optimality is a statement about every data set and model at once.",
      [FIL_S, UPD_S, PRED_S], [COVS, LINALG, "the estimate is affine in the data (shown by C22), which the weights read off from unit observations rely on"])
claim("C13", "The smoothed estimate is the conditional mean given all data",
      "For every linear Gaussian model the smoothed mean at each step is the conditional mean given all observations - its error is uncorrelated with every observation and has the reported covariance - "
      "and the smoothed means together are the most probable trajectory.",
      [IN], "every time-varying linear model and data; N up to 8 (n = 1), 3 (n = 2; thorough 4), n and m up to 3", "As C12; the tests cover one smoother run per filter.",
      [SMO_S, FIL_S], [COVS, LINALG, "predicted covariances are non-singular"])
claim("C14", "The gain minimises the error covariance",
      "For either filter no other gain gives a smaller error covariance: for every gain G the covariance (I - G H) P (I - G H)' + G R G' exceeds the reported posterior covariance by a positive semi-definite matrix.",
      [IN], "every H, P, R and competing gain G; n up to 4, 6 and 8 with one sensor, m up to 4 with n up to 2 (thorough n 4, m 3)", "A statement about all competing gains.", [UPD_S, UPD_E], [COVS, LINALG, SMOOTH])
claim("C15", "Filtering is causal, can be resumed, and agrees with smoothing at the end",
      "The filtered estimate at step k does not depend on data, controls or model matrices after k: filtering a prefix gives the prefix of the results, and filtering the rest from the estimate reached gives the rest. The last smoothed estimate equals the last filtered one.",
      [IN, HI], "every model and data and every split point; N up to 3 (n = 2; thorough 5), 130 (n = 1; extended 20), up to three sensors; both filters, with and without control", "Tests always run one full-length series.",
      [FIL_S, FIL_E, SMO_S, SMO_E], [COVS, LINALG, SMOOTH, SHAPES])
claim("C16", "Calls never modify their inputs or earlier results",
      "Constructing a filter and calling predict, update, filter or smooth leaves every array passed in - and every array the model functions hand back - unchanged. Later calls, and later writes by the caller into the arrays it passed, do not change results already returned or gains already recorded; writes into returned results do not change the arrays passed in, the recorded gains or later runs.",
      [IN, HI], "every model and data; N up to 130 (n = 1), 3 (n = 2; thorough 4), n up to 3 (4), both filters and all four methods; model functions that return a stored or a shared array", "Tests never look at their inputs after a call, nor at a result after a second call.",
      [FIL_S, SMO_S, UPD_S, FIL_E, SMO_E, UPD_E], [COVS, LINALG, SMOOTH])
claim("C17", "A run depends only on its inputs, not on earlier calls",
      "The result of filter or smooth is the same whatever sequence of calls to predict, update, filter and smooth - with the same or other data, on the same or another filter object, including data arrays refilled in place - preceded it.",
      [HI, IN], "every sequence of up to 2 preceding calls (thorough 3), chosen symbolically, with every data value; N = 2-3 and 12 (n = 1), n up to 2; series shorter than the model, N up to 4, 130 (n = 1)", "Tests make one call per filter object.",
      [FIL_S, SMO_S, FIL_E, SMO_E], [COVS, LINALG, SMOOTH])
claim("C18", "The gain list records one gain per update, in order",
      "The gain list is empty after construction and gains exactly one entry per update, in time order - also over repeated filter and smooth calls, which append and never rewrite earlier entries - and prediction and the backward pass of smoothing add none. Each entry is the n x m gain used at that step.",
      [IN, HI], "every model and data; N up to 260 (n = 1), 40 (n = 2), 3 otherwise (thorough 5), n up to 4, m up to 3", "Tests do not read the gain list.", [UPD_S, UPD_E], [COVS, LINALG, SMOOTH])
claim("C19", "The missing-data helpers are exact for every pattern of NaNs",
      "is_nan_all is true exactly when every element of its argument is NaN, infinities and integers counting as values. check_none_and_broadcast turns None into an all-NaN floating-point array of the reference's shape, "
      "whatever the reference's type and contents, and returns any given array with its shape and values; neither modifies its arguments.",
      [IN], "every NaN pattern and value; shapes of 1-3 dimensions up to 1200 elements (placeholders 300), views, integer and single-precision references", "No test mixes NaNs and values, and none passes integer references.",
      [CHK, NAN], ["at least one element"])
claim("C20", "Integer arrays give the same results as equal floats",
      "Giving any of the model arrays, the initial values, the data or the controls as integer arrays gives the same results as the equal floating-point arrays, in both filters, in steps, filtering and smoothing, with and without control.",
      [IN, CF], "every integer value (mathematical integers) of each array alone, of related ones and of all together; N = 2-3 (thorough 4), n up to 3; N = 130 (n = 1; extended 30); model functions returning integers", "Tests use floats for nearly everything; NumPy silently truncates on assignment into integer arrays.",
      [CHK, FIL_S, SMO_S, UPD_S, FIL_E, SMO_E], [COVS, LINALG, SMOOTH, "machine integer overflow is outside"])
claim("C21", "Noise-free data on the true trajectory is reproduced exactly",
      "When every observation equals what the model predicts from the initial mean with its controls, filtering and smoothing return exactly that trajectory, for both filters and any noise covariances.",
      [IN], "every model, initial mean, control and covariances; N up to 12 (n = 2), 130 (n = 1), n up to 3", "A metamorphic statement over all models.", [FIL_S, SMO_S, FIL_E, SMO_E], [COVS, LINALG, SMOOTH])
claim("C22", "Results do not depend on coordinates and are linear in the data",
      "Changing the coordinates of the state or of the sensors transforms the estimates and covariances accordingly and changes nothing else. Estimates of the standard filter are affine in the data, controls and initial mean, and its covariances and gains do not depend on them at all.",
      [IN], "every model; elementary coordinate changes (scaling, shear, swap, sign), which generate all; N up to 3 (n = 2; thorough 4), 8 (n = 1), n and m up to 3", "Metamorphic relations over all models.", [FIL_S, SMO_S], [COVS, LINALG])
claim("C25", "Scalar noise and equivalent array forms mean the same",
      "A plain float measurement noise means that variance at every time step, and the flat, column and matrix forms of one-dimensional data, noise and initial values, and keyword or default control arguments, give identical results in both filters.",
      [IN, CF], "every value; N up to 5, 130 (n = 1), n up to 3", "The documentation allows a float R and examples use several forms; tests use one each.", [FIL_S, SMO_S, FIL_E, SMO_E], [COVS, LINALG])
claim("C26", "More initial uncertainty or noise never means less error",
      "Increasing the prior covariance or the measurement noise (in the PSD order) never decreases the updated covariance, and increasing the prior covariance or process noise never decreases the predicted one; over whole runs, the same holds for every filtered covariance.",
      [IN], "every pair of ordered inputs; single steps n, m up to 3 (thorough prediction 5); whole runs N up to 8 (n = 1), 2 (n = 2; thorough 3)", "An order relation over all pairs of inputs.", [UPD_S, PRED_S], [COVS, LINALG])
claim("C27", "Independent sensors may be processed jointly or one after another",
      "With uncorrelated measurement noises, updating with all sensors at once gives the same mean and covariance as updating with them one after the other, in either filter when the linearisation is the same. When the state does not move between two steps, their observations may come in either order in filtering and smoothing.",
      [IN], "every model and data; n up to 3 (thorough 4), 1+1, 1+2, 2+1 and 2+2 sensors; order of two steps in series of N up to 4, 20 (n = 1; thorough 70), n up to 2, one sensor", "A metamorphic relation over all inputs.", [UPD_S, UPD_E, FIL_S, SMO_S], [COVS, LINALG])
claim("C28", "Calling predict and update by hand reproduces filtering",
      "Calling predict and update alternately with each step's matrices, as an online user would, gives exactly the states, covariances and gains that filtering the whole series returns.",
      [IN, HI], "every model and data; N up to 60 (n = 2), 12 (n = 3), 260 (n = 1; thorough 400)", "Tests check steps and series separately.", [PRED_S, UPD_S, FIL_S, PRED_E, UPD_E, FIL_E], [COVS, LINALG, SMOOTH])
claim("C29", "Uninformative observations and trivial dynamics change nothing",
      "An observation with a zero observation matrix leaves mean and covariance as they were, with zero gain, and an idle prediction (identity transition, no noise, no control) leaves them as they were, in either filter.",
      [IN], "every x, P, z, R; n up to 3, up to 8 with one sensor (thorough 5 with three), m up to 4 with n up to 2", "Never exercised by tests.", [UPD_S, PRED_S, UPD_E, PRED_E], [COVS, LINALG])
claim("C23", "Independent subsystems do not interact",
      "When the model consists of two parts that share no dynamics, noise, control or sensor, estimating them together gives, for either filter, each part's own estimates and covariances, and zero covariance between the parts.",
      [IN], "every pair of models and data; N up to 3, 20 (one state each; standard 130), up to 3+1 and 2+2 states, 2+1 sensors (thorough 3+3, 2+2), with and without control",
      "A relation between runs of different sizes over all models.", [FIL_S, SMO_S, FIL_E, SMO_E], [COVS, LINALG, SMOOTH])
claim("C24", "Uninformative steps and sensors can be inserted or merged",
      "Inserting a step with identity dynamics, no noise and a zero observation matrix anywhere in a series, or a further uncorrelated sensor with a zero observation row, changes no other estimate of the standard filter or smoother. "
      "Two steps of which the first observes nothing give the same as one step with composed dynamics, control and noise.",
      [IN, CF], "every model and data and every place of insertion; N up to 3 (thorough 4), 130 (n = 1), n and m up to 3", "A relation between runs over all models.", [FIL_S, SMO_S], [COVS, LINALG, SHAPES])
claim("C31", "Smoothing needs of the past only the filtered estimate",
      "Smoothing only the steps after j, started from the filtered mean and covariance of step j, gives the smoothed means and covariances that smoothing the whole series gives for these steps, in either filter.",
      [IN, HI], "every model and data and every j; N up to 3, 8 (n = 2), 70 (n = 1; extended 16), n and m up to 3", "Tests smooth one full-length series per filter.", [SMO_S, SMO_E, FIL_S, FIL_E], [COVS, LINALG, SMOOTH, SHAPES])

NA = {
    "C30": dict(title="Rounding errors stay bounded over long runs",
                statement="In floating point, filtering and smoothing a well-conditioned model for any number of steps stays close to the exact result and keeps covariances numerically symmetric and positive definite.",
                over=[IN], text="every well-conditioned model, every length", why="Tests run fixed short series.", mech=[FIL_S, SMO_S],
                reason="needs the IEEE semantics of NumPy/LAPACK (compiled code, division-heavy matrix kernels); bit-precise floating-point solving of even one 2x2 update is out of reach of the solvers here, and an unbounded length is a claim for a proof assistant"),
}


def meta(pid):
    c = P[pid]
    return {"assumptions": c["assume"], "outside": c["outside"] or "sizes and lengths beyond the bounds listed; rounding; malformed shapes"}
