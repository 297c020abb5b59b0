"""property -> driver, and what MANIFEST.json says about it"""
DRIVERS, SPECS, NOTAPP = {}, {}, {}
TV = 'recorded executions of the real code validated against it (total verdict per event)'
BE = 'behaviours enumerated by TLC replayed on the real code and the recorded executions validated against it'


def reg(pid, driver, spec, how, note):
    DRIVERS[pid] = driver
    SPECS[pid] = (spec, how, note)


F = 'drv_formatter:'
reg('C01', F + 'c01', 'Windows, Formatter, FormatterMC', TV, 'Bounded: random configurations and integer frames of up to 34 rows; window semantics model-checked exhaustively for small configurations. Assumes a regular time grid.')
reg('C02', F + 'c02', 'Windows, Formatter, FormatterMC', TV, 'Bounded random configurations; that declared metadata is the true dependency window is model-checked exhaustively for small configurations.')
reg('C03', F + 'c03', 'Windows, Formatter', TV, 'Bounded random configurations and frames with missing samples, both forms, with and without augmentation, sequential and threaded.')
reg('C04', F + 'c04', 'FormatterHist, Formatter', BE, 'All histories of up to 2 operations and a sample (thorough: more) of those of length 3 (4) over 12 operations, each on random configurations.')
reg('C05', F + 'c05', 'Formatter, FormatterMC', TV, 'No-leak, cover and contiguity of the fold rule model-checked exhaustively for small sizes; recorded folds validated sample by sample. Samples that lie exactly on a window edge are constrained only when the edge is representable in nanoseconds.')
reg('C06', F + 'c06', 'NormTrace, Windows', TV, 'Three expression families with exact rational values on integer signals.')
reg('C07', F + 'c07', 'GlobalTrace, Windows', TV, 'Bounded random sets of series, flat and two-level frames, sequential and parallel evaluation (with a stand-in for the ray cluster).')
reg('C08', F + 'c08', 'Formatter', TV, 'Bounded random configurations, steps and rules.')
reg('C23', F + 'c23', 'Calendar, FormatterHist', BE, 'All histories of zoned/naive frames up to length 4 with random zones, starts and steps; the list of public holidays is trusted.')
reg('C25', 'drv_neural:c25', 'Network, NetworkMC, NetTrace', TV, 'Shapes of the abstract networks model-checked for all weights that training can reach (integers up to 1, thorough 2); real networks of up to 4 layers and 3 controls trained on data that push against the constraint, evaluated on 14 lines of 9 points each, up to a 0.006% of their amplitude; the optimum of a quadratic objective to a quarter of a standard deviation. Layer normalisation, quasi-convexity of PIQCNN and the latent networks are not judged.')
reg('C28', 'drv_neural:c28', 'NeuralHist, NeuralTrace', BE, 'A sample of the histories of up to five (thorough six) operations over six classes and random pairs of parameters; 50-60 training rows, up to 4 layers; values compared up to 0.004; data with exact means and deviations, so that the normalised twin learns from identical numbers. Pickling fitted networks, LSTM networks and probabilistic FFNN and PIQCNN are not judged; that training finds good weights is left to the optimiser.')
G = 'drv_forecaster:'
reg('C09', G + 'c09', 'ForecasterHist, ForecasterTrace', BE, 'Histories of up to 5 (thorough 6) operations sampled per class over ten forecaster classes and random parameter pairs; values compared up to 0.003. Neural forecasters (C28) and the adaptive ones (C15, C16) have their own checks.')
reg('C10', G + 'c10', 'QuantTrace, Num', TV, 'Bounded random data of 60-130 rows, seven forecaster classes and a normalising formatter; exact empirical quantiles computed by the specification, compared up to 0.0035.')
reg('C11', G + 'c11', 'Subsample, SubsampleTrace', TV, 'The allocation is model-checked for three hours of up to three rows; recorded fits of up to 90 rows. Shares are tested statistically (six standard deviations over 60 fixed seeds).')
H = 'drv_scen:'
reg('C12', H + 'c12', 'ScenTrace, Num', TV, 'Exact interpolation for known ranks; perfect positive and negative dependence per hour checked for every scenario; intermediate strengths and uniformity statistically (six standard deviations, fixed seeds), for the vanilla and the cross validated covariance estimates.')
reg('C13', H + 'c13', 'Scenred, Tree, ScenredTrace', TV, 'Reduction model-checked for all choices of merges with four (thorough: five) scenarios over three steps; recorded reductions of up to 14 scenarios over 5 steps, trees of scenario generators of up to 40 scenarios. Scenarios with distinct values at each step (the sampler adds jitter for that).')
reg('C14', H + 'c14', 'TreeHist, TreeTrace, Tree', BE, 'Histories of up to five (thorough six) operations over both constructor flags, sampled; linear and user-defined forecasters, reduction and quantile trees, 2-4 steps with or without an additional node; values compared up to 0.004. Trees predicted in parallel through real process pools and a stand-in for ray.')
reg('C22', G + 'c22', 'EncHist, EncTrace', BE, 'All histories of up to three and a sample of those of four fits and predictions over three categories; one or two categorical columns; QRF, linear and a user-defined forecaster.')
reg('C24', G + 'c24', 'RouteTrace, Formatter, QuantTrace', TV, 'Random formatter configurations (60-90 rows, pruning rule of Formatter.tla), sensitivities measured by perturbing every feature; quantile routing exact for single-leaf forests.')
A = 'drv_adaptive:'
reg('C15', A + 'c15', 'HoltWinters, HwHist, HwTrace', BE, 'All (quick: a sample of the) histories of four batches of 1, 2 or 4 observations, gaps, quantile requests, saves, restores, partial settings and copies; series of up to 16 + 16 observations, gains below 0.45, horizons up to 6, states compared up to 0.004. What 20 repetitions of the last season at the end of fit do is not constrained (the state after fit is read).')
reg('C16', A + 'c16', 'Fourier, FourierMC, AdaptHist, AdaptTrace, Exponential', BE, 'A sample of the histories of four (thorough five) trainings, predictions, quantile requests and copies over three kinds of frames; 1-4 steps, seasons of up to 24 rows, runs of up to 16 rows; Kalman forecasters on runs no longer than their season (after which their noise is learned from the data).')
reg('C17', 'drv_hier:c17', 'Hier, HierMC, HierTrace', BE, 'All hierarchies of three to six (thorough seven) series in three key orders enumerated by TLC; integer forecasts and errors; each method verified exactly through multipliers that the trace carries and the specification checks (tolerance 1%). Full uses with linear base forecasters, up to five series and three steps.')
reg('C18', 'drv_score:c18', 'Scores, ScoresMC, ScoresTrace', TV, 'Random integer forecasts, targets and quantiles (up to 15 rows, 5 steps, 11 levels), masks, groupings of rows and steps by integers, text, numbers, booleans and categories, quantile bins of numeric groupings; every entry of every result compared exactly (to 1e-4). Inputs with as many rows as steps are excluded: which axis a grouping splits cannot be told then.')
reg('C20', 'drv_data:c20', 'Compact, CompactMC, CompactTrace', TV, 'Random frames and arrays of up to 13 rows and 13 columns, up to 17 pieces, both axes, several label kinds and column types; integers at and around every type limit and floats up to and beyond single precision compared exactly (limbs and mantissas). Ray is replaced by a stand-in; process pools are real (fewer runs).')
reg('C21', 'drv_bench:c21', 'Bench, BenchMC, BenchTrace', TV, 'Random histories of trainings and requests on integer series of 40-240 rows, seasons 1-8, horizons 2-5; quantiles of seasonal persistence only when rows are set apart for the errors; discrete distributions over up to five values, three targets, five sampling times, across clock changes and for single rows.')
reg('C19', 'drv_train:c19', 'Trainer, TrainerMC, TrainerHist, TrainerTrace', BE, 'A sample of the histories of three (thorough: all, and those of four) cross validations, studies and replacements of the model; 7-12 rows, 2-3 folds, studies of up to 60 trials with conditional parameters; folds as masks, positions, generators, numbers and from the formatter; recording models whose forecasts tell parameters and rows, and linear, boosted and kernel forecasters.')
reg('C26', 'drv_tune:c26', 'Tuner, TunerMC, TunerTrace', TV, 'Design model of two candidates, two targets and up to five rows; recorded tunings of up to 8 candidates with recording models (sequential, parallel processes, and through the fit of a stateful forecaster), integer squared errors recomputed by the specification; real forecasters against models built with the tuned parameters and fitted alone.')
reg('C27', 'drv_smooth:c27', 'Smoothing, SmoothingMC, SmoothHist, SmoothTrace', BE, 'A sample of the histories of four (thorough five) trainings, predictions, quantile requests and copies; given gains (multiples of 1/8) and initial states, seasons of 0, 2-4 rows, 1-4 steps, up to 30 training rows; that gains are estimated well is left to statsmodels.')
reg('C29', 'drv_util:c29', 'Kalman, KalmanMC, KalmanTrace', TV, 'Design model in rational arithmetic of states of one and two components and up to two (thorough three) measurements; real steps on integer matrices of up to two components compared exactly (to 0.003), larger states through relations the filter must satisfy and the joint normal distribution computed at once.')
reg('C30', 'drv_util:c30', 'Resample, ResampleMC, ResampleTrace', TV, 'Design model of all samples of all series of up to three (thorough four) values; real bootstraps of series of two to seven integers under several kinds of labels (also repeated ones), 3 to 260 samples, five statistics as callables and as names; that values are equally likely is checked to seven standard deviations.')
