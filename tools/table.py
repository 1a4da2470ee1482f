UC='check under construction'
prop('P01','Zero bin slop: two-point counts are exactly the brute-force counts',
 'With bin slop zero, every pair of objects whose separation lies in a bin (lower edge included, upper edge excluded) is counted exactly once in that bin, and no other pair is counted, however the objects are grouped into trees. This holds for logarithmic, linear and two-dimensional bins, with Euclidean, periodic and great-circle distances, for auto- and cross-correlations. Two-dimensional auto-correlations count each pair once in each of the two opposite displacements.',
 ['inputs','configurations'],'all positions, cell sizes and tree shapes, angle slops and bin layouts within the stated bounds',
 'tests compare a few random catalogs to brute force; the pruning and early-accumulation conditions fail only for cells that touch a bin edge or an outer limit in a particular way',
 ['src/Corr2.cpp','include/BinType.h','include/Metric.h','include/Split.h'],
 [('pruning of cell pairs','BaseCorr2::process11 / tooSmallDist / tooLargeDist'),('stop splitting','BinTypeHelper::singleBin'),('within-cell pairs','BaseCorr2::process2'),('field level exit','BaseCorr2::process')],
 claimed=True,level_note='Inductive step over one recursion of the real traversal for arbitrary trees, plus complete executions on three points; exact real arithmetic, listed bin layouts.')
prop('P02','Bin slop bounds how far a pair can be misplaced',
 'With a non-zero bin slop, no pair is lost or put in a wrong bin unless its separation is within the slop of the edge it crosses: by at most the slop times the bin width (in log separation for logarithmic bins, in separation for linear bins, per axis for two-dimensional bins). Pairs that are further than that from every edge are always counted in their own bin, exactly once.',
 ['inputs','configurations'],'all positions, cell sizes, slops up to one bin width, tree shapes',
 'tests only compare coarse statistics of slop against brute force with loose tolerances',
 ['src/Corr2.cpp','include/BinType.h','include/Split.h'],[('slop criterion','BinTypeHelper::singleBin'),('pruning','tooSmallDist/tooLargeDist')],
 claimed=True,level_note='Inductive step over one recursion of the real traversal with symbolic slop; second-order term b^2 allowed for logarithmic bins.')
prop('P07','Each pair adds exactly its defined product, projected onto its own line',
 'A pair of objects (or of tree cells) adds to its bin the product of the pair counts, the product of the weights, the weighted separation and log separation, and the weighted product of the two field values. Values with spin are first rotated to the line joining the two points, at each point by the great circle through both when the positions are on the sky; complex correlations keep both the product with and without complex conjugation and their imaginary parts, and shear around unweighted points is tangential. This holds for all eighteen kinds of two-point correlations and, for two-dimensional bins, for both opposite displacements of an auto-correlation.',
 ['inputs','configurations'],'all positions of the two points, all field values and weights, all field types, flat, sky and 3d coordinates',
 'tests check sums over random catalogs with tolerances; a wrong sign or imaginary part often cancels or averages to zero there',
 ['src/Corr2.cpp','include/ProjectHelper.h','include/Corr2.h'],
 [('per-pair accumulation','Corr2::finishProcess'),('products','DirectHelper2::ProcessXi'),('projection','ProjectHelper::Project')],
 claimed=True,level_note='One pair, symbolic positions (unit sphere and fixed radii in 3d), values and weights, exact real arithmetic; spins 0-4.')
prop('P18','Patch covariances combine exactly the right patch pairs',
 'Every row of a patch-based design matrix is the statistic recomputed from the sums of exactly the patch pairs or triples the method names: jackknife leaves one patch out everywhere, sample keeps those whose first patch is the given one, and the bootstraps count each by how often its patches were drawn. The covariance is the stated formula over these rows (shot: variance over weight, zero for empty bins), for one or several correlations together, for a user function, and for any number of processes. Estimating it never changes the correlation, and renaming patches only permutes the rows.',
 ['inputs','configurations'],'all values of the per-patch sums, all bootstrap draws, auto- and cross-correlations with patches on either side or missing pairs, two- and three-point',
 'tests compare covariances with simulations at tens of percent, or with the same code path',
 ['treecorr/corr2base.py','treecorr/corr3base.py'],
 [('pair selection','_jackknife_pairs, _sample_pairs, _marked_pairs, _bootstrap_pairs'),('rows','_make_cov_design_matrix'),('formulas','_cov_jackknife, _cov_sample, _cov_marked, _cov_bootstrap, _cov_shot')],
 claimed=True,technique=TPY,level_note='The real methods run on symbolic sums; 2-4 patches, every draw within the bound; exact rational arithmetic.')
prop('P19','Estimators with randoms follow their formulas, covariance included',
 'Given random catalogs, the two-point and three-point count estimators and all compensated cross-correlations equal their stated formulas, every random count being scaled by the ratio of the total numbers of possible pairs or triangles. Their variance and covariance attributes describe the corrected estimate, the raw attributes the uncorrected one, whatever was read or called before, and each covariance row applies the same formula to the patch pairs kept, with randoms that have patches or not. Empty random bins give no division by zero and the inputs are left unchanged.',
 ['inputs','histories'],'all values of the counts and totals, all combinations of randoms, with and without patches, repeated and alternating calls',
 'tests check a few estimates to a few percent and never the order of attribute reads or the imaginary part of a compensated row',
 ['treecorr/nncorrelation.py','treecorr/nnncorrelation.py','treecorr/nkcorrelation.py','treecorr/nzcorrelation.py'],
 [('estimators','NNCorrelation.calculateXi, NNNCorrelation.calculateZeta, NKCorrelation.calculateXi, BaseNZCorrelation.calculateXi'),('rows','_calculate_xi_from_pairs')],
 claimed=True,technique=TPY,level_note='The real methods run on symbolic sums; 2-3 patches; exact rational arithmetic.')

prop('P16','Patches, processes and call order do not change the answer',
 'However the data are split into patches, with the global or local patch method, low-memory mode or several MPI processes, and whether given in one call or several calls that add up, every patch, pair or triple of patches is processed exactly once and the totals are the sums over all of them. Patch pairs, triples and single objects are only left out when nothing in them can fall within the range of separations, and those left out still count in the number of possible pairs. A new calculation starts from zero and keeps nothing of the previous one.',
 ['inputs','configurations','histories','schedules'],'all numbers of patches and ranks within the bound, all contents of the patches, every subset of empty or far-apart pairs, all positions of the left-out objects',
 'tests use a few patch layouts with plenty of pairs and a mock of two ranks; a lost or doubled empty, far or same-numbered pair changes nothing there',
 ['treecorr/corr2base.py','treecorr/corr3base.py','treecorr/nncorrelation.py','treecorr/nnncorrelation.py','treecorr/catalog.py'],
 [('job distribution','_process_all_auto, _process_all_cross, _process_all_cross12, _process_all_cross21'),('expanded patches','_make_expanded_patch'),('skipping','_trivially_zero, _get_center_size'),('totals','_add_tot, _add_result')],
 claimed=True,technique=TPY,level_note='The real drivers run with stand-in catalogs whose contents are symbols; up to 5 patches and 3 simulated ranks; exact arithmetic.')

prop('P17','Results add up, finish, copy and compare consistently',
 'Adding two unfinished results, or summing a list of them, gives exactly what processing all their data together gives, incompatible binnings are refused, and a cleared result is as good as a new one. Finishing divides every sum by the weights, gives empty bins their nominal separations and the documented zeros, converts units and angles, and adds each shot-noise variance exactly once. Copies, pickles and the printed form rebuild an equal object with independent contents, and two objects compare equal exactly when their binning and all their contents agree.',
 ['inputs','histories','configurations'],'all contents of all result arrays, all classes and binnings, empty bins anywhere, every stored column',
 'tests compare a few finished results within tolerances; an array left out of a sum, a copy or a comparison rarely moves them',
 ['treecorr/corr2base.py','treecorr/corr3base.py','treecorr/ggcorrelation.py','treecorr/gggcorrelation.py','treecorr/nnncorrelation.py'],
 [('sums','__iadd__, _sum, _clear'),('finish','finalize, _mean_np, _apply_units'),('copies','copy, __getstate__, __setstate__, __repr__, __eq__')],
 claimed=True,technique=TPY,level_note='The real methods of all 18 two-point and 3 three-point classes on symbolic arrays of 1-2 bins per dimension; exact rational arithmetic.')

prop('P20','What is written is read back, in the documented columns',
 'A result written to a file and read back, with or without its patch results and covariance, has the same values, weights, counts and variances, and can be used exactly as the original: finished estimates, covariances and further processing do not depend on what the object held before. The written columns hold the documented quantities in the documented units, corrected by the randoms if these were given, with the square root of the right variance as the error. Writing changes nothing in the object.',
 ['inputs','histories','configurations'],'all contents of the arrays, all classes, with patches, covariances and randoms present or not, into new or used objects',
 'tests write and read a few finished results and compare the main columns; columns of rare classes, patch results and the later use of what was read go unchecked',
 ['treecorr/corr2base.py','treecorr/corr3base.py','treecorr/nncorrelation.py','treecorr/nnncorrelation.py','treecorr/nkcorrelation.py'],
 [('columns','_write_col_names, _write_data, _write_params'),('reading','_read, _read_from_data, _read_from_params, from_file'),('patch results','_write, _write_rr')],
 claimed=True,technique=TPY,level_note='The real writing and reading methods against an in-memory table; symbolic arrays; file libraries excluded.')

prop('P21','A catalog holds exactly the included rows, and all follows from them',
 'A catalog contains the requested rows of the input in order, with flips, units and flags applied; rows that are flagged, contain NaN or have no weight are left out, or kept with zero weight if so asked, and unusable input is refused. Selecting, combining, splitting into patches, saving and reloading, in memory or patch by patch from a file, keep every row exactly once with all its columns, and weights, counts, centers and variances always describe the rows present. Copies and pickles are equal and independent, and catalogs differing in any column compare unequal.',
 ['inputs','configurations','histories'],'all values of all columns, NaN in any column, all flags and masks, all patch labels and centers within the bound',
 'tests use a few large catalogs and mean values; a row that is lost, doubled or kept without its weight in one mode or column does not show',
 ['treecorr/catalog.py'],
 [('input','_finish_input, makeArray, checkForNaN'),('rows','select, combine, get_patches, _get_patch_index, _read_file'),('files','write, write_patches, read_patches, load, unload'),('moments','_calculate_weighted_var, calculateVarK..Q, get_patch_centers')],
 claimed=True,technique=TPY,level_note='The real catalog code on 2-5 symbolic objects; compiled position functions replaced by their formulas.')
