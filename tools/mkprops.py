import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=['inputs']; IC=['inputs','configurations']; IH=['inputs','histories']
M='menpofit/'
p('C01','Per-scale options become exactly one valid value per scale',
 "For every accepted form of a per-scale option (one value, a one-entry sequence, or a sequence with one entry per scale) what a model or fitter uses is one value per scale in the order given, a single value serving every scale; a sequence of any other length, or an entry of the wrong kind, is rejected with an error. A total iteration budget is divided evenly over the scales and a per-scale budget is used as given, and active-component settings reach exactly the model of their own scale. The caller's option objects are never modified.",
 IC,'every number of scales, every option kind (scales, callables, patch shapes, component counts, iteration budgets, sampling, algorithm classes, graphs, weights) and every accepted or rejected form of it',
 'No test touches option handling; the quantifier ranges over all numbers of scales and list lengths, which a test can only sample.',
 [M+'checks.py'],[('recursive list normalisation','checks.py check_scales, check_patch_shape'),('replicate-or-pass-through','checks.py check_multi_scale_param, check_callable, check_max_components, check_sampling, check_graph, check_algorithm_cls'),('budget split','checks.py check_max_iters'),('component assignment','checks.py set_models_components')],observe=['return values of menpofit.checks.*','attributes of built models and fitters'])
p('C02','Landmark error metrics equal their published definitions',
 "For all pairs of shapes with the same number of points, each landmark error function returns the value of its definition: root mean square error, mean point-to-point distance, or that distance divided by a normaliser taken from the ground truth (or from the normalising shape or distance function the caller supplies); an error is zero exactly for identical shapes and its arguments are not modified. The bounding-box normalisers are the area root, perimeter, mean edge length and diagonal of the ground truth's bounding box, and two-landmark normalisers are the distance between those ground truth landmarks. The human-face variants use the inter-ocular, inner/outer eye distances of the annotation scheme in question, and the scheme conversions keep the documented landmark subset in its original order.",
 I,'every shape pair with any number of points, any coordinates, any normaliser type, every face annotation scheme (49, 51, 66, 68 points)',
 'The error package has no test at all; a test could only compare a few sampled shapes.',
 [M+'error/base.py',M+'error/human/face.py'],[('error definitions','error/base.py root_mean_square_error, euclidean_error, root_mean_square_bb_normalised_error, euclidean_bb_normalised_error, *_distance_normalised_error, *_distance_indexed_normalised_error'),('normalisers','error/base.py bb_area, bb_perimeter, bb_avg_edge_length, bb_diagonal, distance_two_indices'),('scheme conversion','error/human/face.py')],observe=['return values of menpofit.error functions'])
p('C03','Error statistics summarise exactly the errors they are given',
 "For every list of errors, every step and every error limit, the cumulative error distribution at each bin is the proportion of errors not exceeding that bin, so it lies in [0,1], never decreases, and starts at the lower limit and never runs past the upper limit. The area under it, divided by the maximum error, lies in [0,1] and the failure rate is the proportion of errors above the maximum error. The statistical measures are the mean, standard deviation, median, median absolute deviation, maximum, area and failure rate of each list, in the order of the lists given.",
 I,'every non-empty list or array of non-negative errors, every positive step and every limit',
 'No test covers the statistics; monotonicity and bounds must hold for every error list and step, including ranges that are no multiple of the step.',
 [M+'error/stats.py',M+'visualize/textutils.py'],[('distribution','error/stats.py compute_cumulative_error'),('area and failure rate','error/stats.py area_under_curve_and_failure_rate, mad'),('table','error/stats.py compute_statistical_measures; visualize/textutils.py statistics_table')],observe=['return values'])
p('C04','A fitting result reports one coherent history of the fit',
 "A single-scale or multi-scale fitting result exposes the shapes, parameters and costs of the fit complete, in order and unaltered: the first shape is the initial shape when there is one, the last is the final shape, the iteration count is the number of shape updates performed, and multi-scale shapes, parameters and costs are those of the scales concatenated from the lowest to the highest. The reconstructed initial shapes are the shapes each scale started from in the model, and errors and displacements are computed from exactly these shapes against the ground truth. Converting to a plain result keeps the final, initial and ground truth shapes and the image as selected.",
 IH,'every number of scales, every number of iterations per scale, with and without initial shape, ground truth, costs and image',
 'Nothing in the result classes is tested; indices must be right for every combination of scale count and per-scale iteration count.',
 [M+'result.py',M+'lk/result.py',M+'aam/result.py',M+'aps/result.py',M+'unified_aam_clm/result.py'],[('single-scale bookkeeping','result.py NonParametricIterativeResult, ParametricIterativeResult'),('multi-scale concatenation','result.py MultiScaleNonParametricIterativeResult, MultiScaleParametricIterativeResult'),('algorithm specific parameters','lk/result.py, aam/result.py, aps/result.py, unified_aam_clm/result.py')],[('_shapes','initial shape then one shape per iteration','result.py'),('_reconstruction_indices','position of each scale\'s starting reconstruction','result.py')],['properties of the result objects'])
p('C05','Fits are reported in the coordinates of the image the caller passed',
 "Whatever reference size, scales and holistic features a multi-scale fitter uses, every shape it reports (each iteration's, the initial and the final one) is the working-scale shape mapped back to the coordinate frame of the image the caller passed, each scale starts from the previous scale's final shape at the same place in the image, and the ground truth stays at the caller's coordinates. Each scale works on the image resampled with that scale's factor and that scale's features, and gets that scale's iteration budget. The caller's image, its landmarks and the given shapes are left unchanged.",
 IC,'every image, starting shape, ground truth, reference shape, list of scales and per-scale holistic feature (equal or different between scales)',
 'There is no fitter test; the mapping composes three transforms per scale and must hold for every combination of scales and features, including features that change the image size.',
 [M+'fitter.py',M+'result.py'],[('image pyramid','fitter.py MultiScaleNonParametricFitter._prepare_image, MultiScaleParametricFitter'),('scale hand-over','fitter.py _fit'),('mapping back','result.py _rescale_shapes_to_reference')],[('affine_transforms, scale_transforms','maps from working coordinates to the caller\'s image','fitter.py')],['MultiScaleFitter results','the caller\'s image after fitting'])
p('C06','Iterative fits stop in budget and record exactly what they did',
 "Every iterative fitting algorithm performs at most the given number of iterations, stops early only after an iteration that changed the shape (the parameters, for image alignment) by no more than its tolerance, and returns the starting shape, or the closest shape its model can describe, followed by one shape per iteration performed. The shape recorded for each iteration is the one its recorded parameters describe, the last one is the shape the algorithm ended at, and when parameters of appearance or costs are recorded they belong to the recorded shapes, in order, one for each (image alignment reports the cost each iteration started from). The ground truth, image and initial shape are passed on unchanged.",
 ['inputs','histories','configurations'],'every algorithm (Lucas-Kanade on images and templates, active appearance models, constrained local models, unified models, pictorial structures, supervised descent), every image, starting shape, budget >= 0 and option (costs, priors)',
 'No algorithm is run by any test; the claim ranges over all iteration counts and convergence histories.',
 [M+'aam/algorithm/lk.py',M+'aam/algorithm/sd.py',M+'atm/algorithm.py',M+'lk/algorithm.py',M+'clm/algorithm/gd.py',M+'unified_aam_clm/algorithm.py',M+'aps/algorithm/gn.py',M+'sdm/algorithm/base.py'],[('main loops','run methods of every algorithm class'),('cascade loop','sdm/algorithm/base.py fit_parametric_shape, fit_non_parametric_shape')],[('k, eps','iterations done, last change','run methods')],['algorithm results'])
p('C07','Fitting never changes a trained fitter, so fits are repeatable',
 "Fitting an image leaves the trained model and the precomputed quantities of the fitter as they were, so fitting the same image from the same shape again, with other images fitted and any options used in between, gives the same result. The parameter update of each iteration solves the linear system of its algorithm, and with priors enabled it solves the same system with the inverse prior variances added exactly once to the Hessian and the prior's pull on the current parameters to the gradient. Any number of parameters is supported.",
 IH,'every sequence of fits with any images, starts and options (maximum likelihood or maximum a posteriori), any number of shape and appearance parameters',
 'Needs histories of fits on one fitter; no test fits anything.',
 [M+'aam/algorithm/lk.py',M+'atm/algorithm.py',M+'clm/algorithm/gd.py',M+'unified_aam_clm/algorithm.py'],[('ML / MAP solves','aam/algorithm/lk.py solve_shape_map, solve_all_map and ml variants; atm/algorithm.py; clm/algorithm/gd.py; unified_aam_clm/algorithm.py'),('precomputation','_precompute methods')],[('precomputed Hessian, Jacobian, projections','must be constant during fits','_precompute')],['results of repeated fits'])
p('C08','Warp derivatives are the derivatives of the warps they belong to',
 "The derivative a differentiable warp reports equals the true partial derivative of applying the warp, for any points, any parameters and every supported dimensionality: with respect to the parameters and to the input point for affine and similarity warps (at every parameter value, plain or alignment), with respect to a landmark of the target for thin plate splines and piecewise affine warps, with respect to the input point for thin plate splines, and with respect to the input point for the radial basis functions. The parameter composition and inversion rules match composing and inverting the warps. The layout is one row per point, one column per parameter or landmark and one entry per output dimension. (The piecewise affine derivative in the input point, an identity placeholder valid on undeformed triangles only, is not covered.)",
 I,'every point set, every parameter vector, 2D and 3D, every kernel and source/target configuration',
 'The 11 existing tests compare a handful of constants for some of these Jacobians on one point set and one parameter value.',
 [M+'transform/homogeneous.py',M+'transform/rbf.py',M+'transform/thinsplatesplines.py',M+'transform/piecewiseaffine.py',M+'differentiable.py'],[('affine family','transform/homogeneous.py DifferentiableAffine, DifferentiableSimilarity, alignment variants d_dp, d_dx, compose_after_from_vector_inplace, pseudoinverse_vector'),('kernels','transform/rbf.py'),('splines','transform/thinsplatesplines.py'),('piecewise','transform/piecewiseaffine.py')],observe=['d_dp, d_dx, d_dl, pseudoinverse_vector return values'])
p('C09','Shape model, weights and target shape always agree',
 "After any sequence of setting parameters, setting a target shape, changing the number of active components or incrementing the model, a point distribution model's target is the shape its current parameters generate, and its parameter vector reads back exactly what was set (whatever the caller does with its own array afterwards), global (similarity or affine) parameters first and weights after. Setting a target aligns the global transform from the model's current mean to that target and takes the least-squares weights of the target brought back, so plain and orthogonal models reproduce every target inside their span exactly. Model-driven warps keep target, parameters and the warp to that target in the same agreement; a linear warp extends a sparse target by least squares in its current basis.",
 IH,'every model, weight vector, target shape and sequence of operations, for plain, global and orthogonal models, and for holistic and linear model-driven warps',
 'No test exercises model instances; agreement must survive every history of operations.',
 [M+'modelinstance.py',M+'transform/modeldriven.py'],[('state synchronisation','modelinstance.py _ModelInstance, PDM, GlobalPDM, OrthoPDM _from_vector_inplace, set_target, _sync_*'),('model driven warps','transform/modeldriven.py ModelDrivenTransform, GlobalMDTransform, OrthoMDTransform, Linear*')],[('_weights / global transform / _target','current parameters and shape','modelinstance.py')],['target, as_vector, weights'])
p('C10','Shape-model Jacobians and compositional updates are exact',
 "The derivative a point distribution model or model-driven warp reports with respect to its shape weights equals the true derivative of the points placed at the current parameters, whatever history led there, including the chain rule through the global transform and through the warp; with respect to global parameters it is that of the placed mean shape (Jacobians are documented to be evaluated at the mean shape). Composing a warp with an increment gives p + Jp*delta, where Jp is the least-squares projection of the first-order composition of the two warps at the landmarks of the mean shape, given the derivative of the warp in its input. Reading a derivative never changes the model, and the points passed in are never modified nor assumed constant between calls.",
 IH,'every model, parameter vector, point set and operation history; 2D and 3D',
 'No test evaluates any of these Jacobians.',
 [M+'modelinstance.py',M+'transform/modeldriven.py'],[('Jacobians','modelinstance.py PDM.d_dp, GlobalPDM.d_dp; transform/modeldriven.py d_dp'),('composition','transform/modeldriven.py compose_after_from_vector_inplace, Jp, pseudoinverse')],observe=['d_dp, Jp, compose_after_from_vector_inplace'])
p('C11','Trained regressors are least-squares optimal, incremental equals batch',
 "For every training set, regularisation and bias setting, the linear regressors' predictions are those of the regularised least-squares (or principal-component, optimal-subspace or orthogonal-Procrustes) solution of their definition. Training incrementally, in any split of the data into batches, gives the same predictor as training once on all the data. Prediction is the affine map learnt and neither training nor prediction modifies the data passed in.",
 IH,'all feature and target matrices, regularisers, bias on or off, any partition into batches',
 'No regression test exists; equality of incremental and batch training is over all data splits.',
 [M+'math/regression.py'],[('normal equations and Woodbury update','math/regression.py IRLRegression.train, increment'),('indirect variant','math/regression.py IIRLRegression'),('subspace variants','math/regression.py PCRRegression, OptimalLinearRegression, OPPRegression')],[('V','inverse of the regularised covariance','IRLRegression'),('W','regression matrix','all')],['train, increment, predict'])
p('C12','Supervised descent trains on aligned features and targets',
 "When training a supervised-descent cascade, each row of features, extracted from an image at one perturbed shape, is regressed against the displacement from that same perturbed shape to that image's ground truth, and after each level every current shape becomes that shape plus the displacement predicted from its own features. At test time each level extracts features at the current shape and adds the prediction of that level's regressor, so the training and fitting updates are the same function. Perturbed shapes keep their image and order through all levels and scales, and images and ground truth shapes are not modified.",
 ['inputs','histories','configurations'],'every set of images, any (equal) number of perturbations per image, number of levels and scales, every algorithm (direct, shape-parametric, appearance-parametric, fully parametric)',
 'No supervised-descent code is tested; row alignment must hold for all counts of images and perturbations.',
 [M+'sdm/algorithm/base.py',M+'sdm/algorithm/nonparametric.py',M+'sdm/algorithm/parametricshape.py',M+'sdm/algorithm/parametricappearance.py',M+'sdm/algorithm/fullyparametric.py',M+'sdm/fitter.py'],[('deltas and features','sdm/algorithm/base.py compute_*_delta_x, features_per_*'),('cascade','sdm/algorithm/base.py BaseSupervisedDescentAlgorithm._train, update_*_estimates, fit_*'),('scale hand-over','sdm/fitter.py _train_batch')],observe=['regressor inputs, current shapes, fitted shapes'])
p('C13','Frequency-domain filtering equals spatial filtering, online equals batch',
 "Padding an array to a size and cropping it back gives the array again for every pair of sizes, and frequency-domain convolution equals the spatial convolution of the same size mode and boundary rule. The correlation filters learnt satisfy their normal equations for the training patches, and updating a filter with further images gives the filter trained on all of them, for any split. Inputs are not modified.",
 IH,'every array size, filter size, channel count, mode and boundary option, and every partition of training images',
 'menpofit.math has no tests; off-by-one cropping depends on parities and zero margins of sizes.',
 [M+'math/fft_utils.py',M+'math/correlationfilter.py'],[('pad/crop','math/fft_utils.py pad, crop'),('convolution','math/fft_utils.py fft_convolve2d, fft_convolve2d_sum'),('filters','math/correlationfilter.py mosse, imosse, mccf, imccf')],observe=['return values'])
p('C14','CLM response maps are distributions over the right offsets',
 "The sampling grid enumerates each integer offset of the patch exactly once, ordered by rows and columns, around zero, for odd and even sizes. Each expert's response map turned into a probability map is non-negative and sums to one, a constant response giving the uniform map, and the mean-shift step of each landmark is the kernel- and response-weighted average of the grid offsets, a convex combination that stays inside the search region. The arg-max step moves each landmark by the kernel average of the (mirrored) offsets around the offset with the highest response.",
 I,'every patch size, response map, kernel variance, shape and number of landmarks',
 'No constrained-local-model code is tested; sizes and response maps are unbounded.',
 [M+'base.py',M+'clm/expert/base.py',M+'clm/expert/ensemble.py',M+'clm/algorithm/gd.py',M+'unified_aam_clm/algorithm.py'],[('grid','base.py build_grid'),('probability maps','clm/expert/base.py probability_map; clm/expert/ensemble.py predict_probability'),('mean shift','clm/algorithm/gd.py RegularisedLandmarkMeanShift; unified_aam_clm/algorithm.py'),('arg-max','clm/algorithm/gd.py ActiveShapeModel')],observe=['predict_probability, run'])
p('C15','Residuals, gradients and Hessians are consistent with their cost',
 "For every residual type the steepest-descent update direction is the negative gradient of the cost it reports up to the documented Gauss-Newton approximation: the error is the weighted difference it is defined on, the Hessian is the product of the steepest-descent images it pairs with, and the update is their product with that same error. Image gradients are those of the sampled pixels, in the same order and mask for the image, the template and the Jacobian, for every sampling mask. Inputs are not modified.",
 I,'every image, template, Jacobian, channel count and sampling mask, all residual types',
 'No residual test exists; the claim is over all images and masks.',
 [M+'lk/residual.py',M+'aam/algorithm/lk.py',M+'atm/algorithm.py',M+'aps/algorithm/gn.py'],[('residual algebra','lk/residual.py Residual subclasses'),('interfaces and masks','aam/algorithm/lk.py LucasKanade*Interface; aps/algorithm/gn.py GaussNewtonBaseInterface')],observe=['steepest_descent_images, hessian, steepest_descent_update, cost_closure'])
p('C16','Every scale of a trained model uses its own components',
 "Splitting training data into batches hands over every item exactly once and in order, whatever the batch size. A multi-scale model has exactly one shape and one appearance component set per scale, before and after being incremented, and instances and reconstructions at a scale use that scale's models, patch shapes and parameters: the reconstruction of iterate i uses the appearance model of the scale iterate i belongs to. Progress printing yields every item once, in order.",
 ['inputs','histories','configurations'],'every batch size, number of items, number of scales, iteration counts and increment history, for appearance, template, unified, pictorial-structure and constrained local models',
 'No model is built by any test; the claims range over all counts and histories.',
 [M+'base.py',M+'aam/base.py',M+'atm/base.py',M+'aps/base.py',M+'clm/base.py',M+'unified_aam_clm/base.py',M+'visualize/textutils.py'],[('batching','base.py batch'),('per-scale lists','_train_batch of aam/atm/aps/clm/unified base.py'),('reconstruction','appearance_reconstructions, instance, random_instance'),('progress','visualize/textutils.py print_progress')],observe=['shape_models, appearance_models, instance, appearance_reconstructions'])
p('C17','Perturbations are similarity noise on the given shape, in bounds',
 "A perturbed shape is the given shape, or the reference shape placed on the bounding box, moved by a similarity transform whose scale, rotation and translation noise have exactly the requested magnitudes relative to the shape; with zero noise it is the unperturbed alignment, the alignment's own rotation is used only when allowed and uniform noise never exceeds its bound. Generating perturbations gives the requested number per image, based on that image's own ground truth or bounding boxes, and leaves images' existing landmarks, shapes and option values unchanged. Aligning a shape to a bounding box makes it span that box's location and size.",
 IC,'every shape, bounding box, noise type, noise percentage and rotation option, every number of images and perturbations, every outcome of the random source',
 'Random perturbation is untested; bounds must hold for every random draw.',
 [M+'fitter.py'],[('noise','fitter.py noisy_alignment_similarity_transform, noisy_target_alignment_transform, noisy_shape_from_shape, noisy_shape_from_bounding_box'),('alignment','fitter.py align_shape_with_bounding_box'),('training set generation','fitter.py generate_perturbations_from_gt')],observe=['return values'])
p('C18','Training data keep order, geometry and scale through preprocessing',
 "Rescaling images to a reference shape, scaling, feature extraction, warping, patch extraction and shape alignment return one output per input in input order, each with its own landmarks transformed like its pixels and the originals unmodified. The reference shape is the mean of the training shapes resized to the requested bounding-box diagonal, and the reference frame contains the whole reference shape with the requested margin. The inverse transforms returned map scaled coordinates back to the originals.",
 IC,'every list of images and shapes, diagonal, scale, feature and boundary',
 'The builders have no test.',
 [M+'builder.py'],[('reference shape','builder.py compute_reference_shape, normalization_wrt_reference_shape'),('scaling','builder.py rescale_images_to_reference_shape, scale_images'),('warping and patches','builder.py warp_images, extract_patches'),('frames','builder.py build_reference_frame, build_patch_reference_frame')],observe=['return values'])
p('C19','Conversions to and from dlib keep coordinates and pixels',
 "Converting a bounding box, a shape or an image to dlib's types and back keeps every landmark in its own position with row and column not exchanged (up to rounding to whole pixels), in order and for any number of points, and keeps pixel values to 8-bit precision with channels in order. Training examples pair each image with its own shapes. The inputs are not modified.",
 I,'every box, shape and image of 1 or 3 channels',
 'The dlib bridge is not tested.',
 [M+'dlib/conversion.py',M+'dlib/algorithm.py'],[('conversions','dlib/conversion.py'),('training set','dlib/algorithm.py')],observe=['conversion results'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
