import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
SS="forcepho/superscene.py"; D="forcepho/dispatcher.py"
p("C01","A source is varied by at most one checked-out region at a time",
 "While any set of regions is checked out of a scene database (either kind), no source is active in two of them, and no source is active in one and fixed in another. Within one region no source appears twice, whether active, fixed or one of each, and there are between one and the configured maximum number of active sources.",
 ["histories","schedules","configurations"],
 "every interleaving of check-outs (random or requested seed), check-ins and abandoned tasks by any number of workers, for every catalog layout and patch-size configuration",
 "The tests check out at most one region at a time; the demo holds two. Overlap needs particular geometries and several outstanding regions.",
 [SS],[("near-active test and availability test before a region is granted","SuperScene.get_circular_scene, LinkedSuperScene.grow_scene, SuperScene._available"),("flags set on check-out","checkout_region")],
 [("sourcecat['is_active'], sourcecat['is_valid']","who may be handed out","SuperScene.sourcecat")],["SuperScene.checkout_region","LinkedSuperScene.checkout_region"])
p("C02","Availability flags and counters always match what is checked out",
 "At every moment a source is marked active exactly if some outstanding region varies it and marked available exactly if no outstanding region contains it (active or fixed), and the active and fixed counts equal the sizes of the outstanding regions, as do the sparseness test (active fraction below the configured limit) and the to-do test (some source has fewer iterations than the target) derived from the catalog. A refused check-out changes nothing, and once every region is back every source is available and the counts are zero.",
 ["histories","schedules","configurations"],
 "every history of granted and refused check-outs, check-ins in any order, zero-iteration check-ins and resets",
 "Tests never look at the flags with several regions outstanding, and leaks only show after particular orders of check-ins of neighbouring regions.",
 [SS],[("flag and counter updates","checkout_region, checkin_region, reset")],
 [("n_active, n_fixed, is_active, is_valid","outstanding sources","SuperScene")],["sourcecat columns","n_active","n_fixed","sparse","undone"])
p("C03","Check-in applies exactly the returned result to exactly its sources",
 "After a region is checked in, the sources it varied have exactly the returned parameter values (and returned covariances and bounds when given), their iteration count increased by the stated number and their patch count by one if that number is positive, and the task is appended to each of their logs and to the patch log. No other source, and no other column, changes, whatever other regions are outstanding and in whatever order the rows come back.",
 ["histories","schedules","inputs"],
 "every interleaving of outstanding regions and check-ins, any row order, with or without covariances, bounds, fixed sources and task identifiers",
 "Tests check in one region and do not compare the rest of the catalog; misdirected writes need interleaved regions or permuted rows.",
 [SS],[("indexing by source_index","SuperScene.checkin_region")],
 [("sourcecat, covariance_matrices, bounds_catalog, sourcelog, patchlog","master state","SuperScene")],["SuperScene.checkin_region","bounds_and_covs"])
p("C04","Check-out hands out the latest checked-in state as an isolated snapshot",
 "The rows of a checked-out region (active and fixed), and the bounds and covariances for its sources, equal what was most recently checked in for those sources (or the initial state), in the order of the rows. They are snapshots: nothing the holder does to them changes the scene, and nothing later checked in changes them.",
 ["histories","schedules"],
 "every history of check-outs and check-ins, with holders that modify what they were given at any point",
 "Tests do not modify handed-out arrays while other regions are in flight, nor compare the values with the history.",
 [SS],[("fancy-indexed copies of catalog rows","checkout_region"),("bounds and block covariance by source index","bounds_and_covs")],
 [("sourcecat, bounds_catalog, covariance_matrices","master state","SuperScene")],["checkout_region","bounds_and_covs"])
p("C05","Work always gets done: every source reaches the target iterations",
 "From any reachable state of a scene in which outstanding regions are eventually checked in, repeatedly checking out randomly seeded regions brings every source to the target number of iterations in a bounded number of tasks; drawing a seed never fails, whatever the iteration counts. When nothing is checked out a check-out always succeeds, for a random seed or any requested one, and the requested seed's neighbourhood is granted.",
 ["schedules","histories","configurations"],
 "every fair schedule of workers, every spread of iteration counts (including huge ones and restarts), sources larger than the patch; for the circular scene, configurations in which the seed is among the nearest sources",
 "The tests take a single region from a fresh catalog; starvation, non-finite draw weights and permanently invalid sources need long histories.",
 [SS],[("seed weights","seed_weight, exp_weight, draw_center"),("at least one active source","get_circular_scene, grow_scene")],
 [("n_iter","iterations so far","sourcecat")],["undone","checkout_region"])
p("C06","Every finished task is checked in exactly once",
 "In a dispatched run, every task handed to a child has its result applied to the scene exactly once, including results that arrive after the target was reached: at the end each source's parameters are those of the last task that varied it, its iteration and patch counts are the sum over those tasks, and no task is applied twice or dropped. Each task carries the then-current values and bounds of its sources, and the final state is written to disk with nothing left checked out.",
 ["schedules","histories","configurations"],
 "every number of children, every order and delay of messages and completions, every task duration",
 "No test runs the dispatcher; the property depends on the arrival order of results from several children.",
 [D,SS],[("event loop: check out, submit, collect, check in, stragglers","do_parent"),("work loop","do_child")],
 [("outstanding requests, busy and idle children","queue state","MPIQueue")],["do_parent","do_child","the scene state file"],None)
p("C07","The task queue is safe, and a dispatched run always terminates cleanly",
 "A task goes only to an idle child, a child has at most one task, every submitted task's result is returned by collection exactly once and frees exactly the child that did it; blocking collection returns at least one result, collecting 'all' returns every outstanding one, and submitting with no idle child or closing with work outstanding is refused. A run whose children keep finishing always ends, with each child receiving exactly one shutdown message and no message left unreceived.",
 ["schedules","histories","configurations"],
 "every sequence of queue operations and every delivery order, for any number of children, with slow and stalled children",
 "No test exercises the queue; deadlocks and misassigned children depend on the completion order.",
 [D],[("idle and busy lists kept in step with receive handles","MPIQueue.submit, collect, closeout"),("termination of the event loops","do_parent, do_child")],
 [("idle, busy","children states","MPIQueue")],["MPIQueue","do_parent","do_child"])
p("C08","Results are logged under the task that produced them",
 "Throughout a dispatched run the patch log lists each completed task exactly once, in order of check-in, each source's log lists exactly the tasks that varied it, in the same order, and both agree with the patch number stored in the result and with the region and sources recorded for that task in the patch catalog written at the end. This holds whatever the order in which children finish.",
 ["schedules","histories"],
 "every completion order of concurrently running tasks, including stragglers",
 "No test runs two tasks concurrently; with one task at a time every attribution is trivially right.",
 [D,SS,"forcepho/fitting.py"],[("patch number travels with the task and its result","do_parent, do_child, Result.fill"),("logs","checkin_region")],
 [("sourcelog, patchlog","provenance","SuperScene"),("patchlog.dat","task catalog","do_parent")],["state log file","patchlog.dat"])
p("C09","A failing parent saves everything checked in, and a restart resumes it",
 "If the dispatching parent fails or is interrupted at any communication step, the state file and log on disk afterwards contain every result checked in before that and no trace of unfinished tasks. Starting again from that file keeps all parameters, iteration and patch counts, makes every source available, and completes the run; only tasks that had not been checked in are repeated.",
 ["crash_points","schedules","fault_sequences"],
 "failure (error or keyboard interrupt) at any message operation of the parent, any schedule, repeated failures and restarts",
 "No test interrupts a run; which sources are outstanding at the failure depends on schedule and failure point.",
 [D,SS],[("context manager writes the state on any exit","SuperScene.__exit__, writeout"),("re-opening resets availability only","set_catalog, rectify_catalog")],
 [("state file and log","durable state","SuperScene.statefilename")],["state file","rectify_catalog","do_parent"])
p("C10","The scene state on disk is always complete: old or new, never partial",
 "At any instant during (or crash within) a write of the scene state, whether the process dies or power is lost, the state file and the log file each hold a complete earlier or the new version; once the write call returns, both hold the new version. If any file-system operation fails, the call raises (unless both new versions are in place) and each file is still complete, previous or new; every version read back equals the catalog and logs at the time of that write, and no other file is touched or, unless its removal failed or was interrupted, left behind.",
 ["crash_points","fault_sequences","histories"],
 "a crash at any file-system operation (including inside a write), power loss that drops unsynced data, and an error, full disk or short write at any operation, for any history of writes",
 "Tests write state once on a healthy disk; a partial file needs a crash between particular system calls.",
 [SS,"forcepho/utils/io.py"],[("write beside, sync, rename","SuperScene.writeout, atomic_write")],
 [("<statefile>.fits, <statefile>_log.json","durable state","writeout")],["the two files on disk"])
p("C11","Patch output files are complete or absent, and write errors are raised",
 "At any instant during (or crash within) the writing of a patch's samples or residuals file, that file is absent (or its previous version) or complete, and a completed file reads back exactly the chain, catalogs, bounds, statistics and pixel data that were passed. If any file-system operation fails the call raises instead of reporting success with a file that is missing, truncated or lacks datasets. A call that returned or raised leaves no temporary file, unless removing it failed or it was interrupted.",
 ["crash_points","fault_sequences","inputs"],
 "a crash or an I/O error (EIO, disk full, short write) at any file-system operation, for chains and patches of any size",
 "Tests write these files on a healthy disk and mostly do not read them back.",
 ["forcepho/fitting.py","forcepho/utils/io.py"],[("dump and residual writers","Result.dump_to_h5, write_residuals, write_to_disk, make_imset")],
 [("<outroot>_samples.h5, <outroot>_residuals.h5","patch products","write_to_disk")],["the files on disk","Result/Samples, Residuals readers"])
p("C12","The image metadata store survives interruption and reads back what was added",
 "Writing the metadata store (its JSON of headers and, when given, its file of gWCSes) either completes or leaves the previous version of each file readable, at any crash or I/O error, and errors are raised. Reopening a written store gives, for every band and exposure added and no others, the same header values and an equivalent WCS, for every order of additions and repeated saves.",
 ["crash_points","fault_sequences","histories"],
 "every sequence of additions and saves, crash or I/O error at any file-system operation of a save",
 "Tests save once, on a healthy disk.",
 ["forcepho/patches/storage.py"],[("atomic JSON write and reload","MetaStore.write_to_file, read_from_file, add_exposure")],
 [("metastore JSON","durable metadata","MetaStore")],["MetaStore(filename)"])
p("C13","Pixel store ingestion is complete per exposure and safe to retry",
 "After an exposure was added to the pixel store, its stored pixels reproduce the given image and inverse uncertainty exactly (masked or non-finite pixels and, with a background, the subtraction as documented) and the given arrays are not modified; other exposures are unaffected and the image geometry of the store never changes. Adding an exposure again replaces it. If an addition is refused (file cannot be opened or is locked, wrong shape, bad argument), the error is raised, earlier exposures still read back, and retrying succeeds; an I/O error while writing is raised and never reported as success.",
 ["fault_sequences","histories","inputs"],
 "every sequence of additions by several store objects on one file, with open and lock failures and invalid or repeated additions at any point",
 "Tests add exposures once to a fresh file.",
 ["forcepho/patches/storage.py"],[("superpixel packing, attributes recorded once","PixelStore.add_exposure, __init__")],
 [("pixel store HDF5","durable pixels","PixelStore")],["PixelStore.data","stored attributes"])
p("C14","A reused worker gives each task the same answer as a fresh one",
 "A patch object reused for a sequence of tasks yields for every task the same pixel data, packed metadata, sources, likelihoods, gradients, residuals and design matrices as a newly made one, whatever tasks, evaluations and residual or design-matrix computations came before. This includes earlier tasks that failed part way (unreadable data, an error or interrupt during building, preparation or evaluation). Answers handed out earlier do not change.",
 ["histories","fault_sequences"],
 "every sequence of tasks and evaluations on one patch object, with read errors, kernel errors and interrupts at any point",
 "Tests build one patch per object and never fail part way.",
 ["forcepho/patches/patch.py","forcepho/patches/device_patch.py","forcepho/patches/pixel_patch.py","forcepho/patches/static_patch.py","forcepho/model.py"],
 [("state rebuilt per task and restored after computations","Patch.build_patch, prepare_model, subtract_fixed, swap_on_device, design_matrix")],
 [("packed data, device pointers, scene, reference coordinates","patch state","Patch classes")],["prepare_model","Posterior.lnprob","residuals"])
p("C15","GPU memory is never leaked, double-freed or used after release",
 "Over any sequence of sends, swaps, residual retrievals, rebuilds and releases, including failing allocations and copies, every device buffer is freed at most once, nothing is read, written or passed to a kernel after it was freed, and after the patch is released no buffer remains allocated. The device structures only ever point at live buffers of the right size and content, so results equal those of the CPU.",
 ["histories","fault_sequences"],
 "every sequence of operations of the GPU patch with allocation or transfer failure at any call",
 "There is no GPU in the tests; leaks and dangling pointers need failure at a particular call.",
 ["forcepho/patches/device_patch.py","forcepho/proposal.py"],[("pointer table popped before free","GPUPatchMixin.send_to_gpu, swap_on_device, free, retrieve_array")],
 [("device_ptrs","live buffers","GPUPatchMixin")],["pycuda driver calls"])
p("C16","Cached likelihoods always belong to the position and settings asked for",
 "Whatever sequence of likelihood, gradient, combined, negated and residual evaluations is requested, each answer equals that of a fresh posterior at that position and those settings, i.e. the kernel's likelihood combined with the current prior and, when sampling, the transform's volume term, including after an evaluation that raised or was interrupted, and after the caller modifies the arrays it passed in. Repeating the same request at the same position does not change the answer.",
 ["histories","fault_sequences"],
 "every sequence of evaluations, settings changes, caller mutations and failures",
 "Tests evaluate each position once or in one fixed order.",
 ["forcepho/model.py"],[("position-keyed cache","Posterior.lnprob_and_grad, evaluate, lnprob_grad, nll")],
 [("cached position, value, gradient","memo","Posterior")],["Posterior methods"])
p("C17","A sampling run is determined by its random seed, start and data",
 "Given the same random seed, starting point, data and settings, a sampling or optimisation task gives the same chain, statistics and final catalog however fast or slow the machine's clock runs, whichever worker does it and whatever the worker did before; an interrupted sampling raises or returns the samples drawn so far, without affecting the next task. Chain length, the tuning/draw split, call count and the reported final state agree with the evaluations actually made.",
 ["schedules","histories","fault_sequences"],
 "every placement of tasks on reused workers, every clock behaviour, interruption at any evaluation",
 "Tests run each sampler once; dependence on hidden state or clocks needs a second run in another context.",
 ["forcepho/fitting.py","forcepho/tasks.py","forcepho/model.py"],[("seeded numpy and littlemcmc, no shared state","run_lmc, run_opt, optimize_fluxes, tasks.optimize, tasks.sample")],
 [("Result","chain and statistics","forcepho.fitting")],["run_lmc","run_opt","tasks"])
p("C18","Combined catalogs use each source's most recently completed patch",
 "For every order in which patches completed and every numbering of them, the combined posterior catalog gives each source the samples, identifiers and patch number of the last completed patch that varied it, flux uncertainties come from that same patch (for a band without data in it, from the last one that has the band), and the multi-patch listing gives for each repeated source its chains from exactly the patches in its log, in order. Sources never varied are marked as such; asking for some patches only gives those, still one row per source; the post-optimisation catalog is the final state of the run.",
 ["schedules","histories"],
 "every completion order and overlap of patches, any patch numbering",
 "Tests have a single patch; with one patch, or patches completed in order, indexing by position or by number looks the same.",
 ["forcepho/postprocess.py","forcepho/fitting.py","forcepho/utils/chain.py"],[("assembly in patch-log order","postsample_catalog, flux_unc_linear, find_multipatch, run_metadata")],
 [("patchlog, sourcelog, samples files","run output","forcepho.postprocess")],["postsample_catalog","flux_unc_linear","find_multipatch"])
p("C19","A checked-out region is the requested neighbourhood, complete and undivided",
 "At any point of a scene's history, the circle of a checked-out region encloses all its active sources together with their extent (a number of current half-light radii around the original position for the circular scene; radius of influence and buffer for the linked one). Every other source inside that circle (and within the boundary radius, for the circular scene) belongs to the region as fixed, unless the maximum number of fixed sources is used up, and never more than that maximum are fixed. A requested seed is honoured: the circular region is centred on it, the linked one varies it. The linked scene keeps overlapping sources together: at most one group of mutually linked sources is divided, and only to fill the region to its maximum (if strict, only when the region holds nothing else); a seed's group that fits is varied whole. The group catalog and the sources overlapping a given circle are those implied by the current radii, and asking for them changes nothing.",
 ["histories","configurations"],
 "every history of check-outs and check-ins that move sources, change their sizes, and restart the scene; every layout and patch-size configuration with radii of influence within the boundary radius",
 "The tests check one region of a fresh regular grid; the geometry depends on the sizes checked in so far and on original rather than current positions.",
 [SS],[("distance in scale lengths, patch radius","get_circular_scene"),("friends of friends, enclosing circle, fixed neighbours","grow_source, grow_scene, find_overlaps"),("seed","draw_center, checkout_region")],
 [("scene_coordinates, kdt, roi","original positions and current extents","SuperScene")],["checkout_region","make_group_catalog","overlap_circle"])
p("C20","The GPU kernel gives the CPU kernel's answer under every schedule of its threads",
 "For every patch (its exposures hold whole warps of 32 pixels, as patches are packed) and every thread block of whole warps that GPUProposer launches, EvaluateProposal returns per band the chi-square, the derivative for every source and, if asked, the residual of every pixel that the CPU kernel gives for the same patch and proposal, up to the rounding of sums, however the threads, warps and blocks interleave between memory accesses and whatever shared memory held before. Every thread reaches every barrier and warp exchange (no launch hangs), no access falls outside the memory given to the kernel, and neither the packed patch (other than the residual) nor the proposal is changed.",
 ["schedules","inputs"],
 "every interleaving of the threads of a launch at the granularity of memory accesses, every block size that is a multiple of 32, every initial content of shared memory",
 "There is no GPU in the tests; and a missing barrier or atomic shows only under some interleavings.",
 ["forcepho/src/compute_gaussians_kernel.cu","forcepho/proposal.py","forcepho/patches/device_patch.py"],[("image gaussians in shared memory","CreateImageGaussians"),("sums over threads","Accumulator"),("loop over exposures and pixels","EvaluateProposal"),("launch configuration","GPUProposer.evaluate_proposal")],
 [("imageGauss, accum","shared memory of a block","EvaluateProposal")],["GPUProposer.evaluate_proposal"])
p("C21","Assembled images show each pixel as its most recently completed patch left it",
 "For every order in which patches completed and every numbering of them, the data, residual, model and chi images assembled from a run's residual files have, in each pixel that a logged patch covers, the values stored by the most recently completed patch covering it (the same patch in every kind of image), at that pixel's place in its own exposure and with that exposure's header. Pixels that no patch covers are NaN, and padding is ignored. Assembling again after more patches completed gives the updated images; the images of one patch by itself hold exactly its own pixels, whatever was read before. A residual file that cannot be read, or an image that cannot be written, raises an error.",
 ["schedules","histories","fault_sequences"],
 "every completion order, numbering and overlap of patches, patches without residual files or never checked in, damaged files and I/O errors; exposures with distinct names",
 "No test assembles images; with one patch, or patches numbered in the order they complete, the order of files does not matter.",
 ["forcepho/postprocess.py","forcepho/utils/io.py","forcepho/utils/__init__.py"],[("assembly in order of completion","write_images"),("pixels of a patch placed in its exposures","Residuals.fill_images, Residuals.make_exp, populate_image")],
 [("patchlog, residuals files","run output","forcepho.postprocess")],["write_images","Residuals.fill_images","Residuals.make_exp"])
def na(id,title,st,files,why):
    p(id,title,st,["inputs"],"every input in the domain",why,files,[("computation","see files")])
na("C31","The kernel's gradient is the derivative of its likelihood","For every scene and patch the gradient returned with a log-likelihood is its derivative with respect to each source parameter.",["forcepho/src/compute_gaussians_kernel.cc","forcepho/proposal.py"],"Tests compare a few points.")
na("C32","Fast and slow likelihood agree","For every scene and patch the compiled likelihood equals the reference Python one within floating-point error.",["forcepho/src","forcepho/slow"],"Tests compare a few scenes.")
na("C33","Bounded transforms invert and have the right Jacobian","For all bounds and positions the transform and its inverse round trip, and the Jacobian terms are its derivatives.",["forcepho/model.py"],"Tests sample few values.")
na("C34","Masked pixels contribute nothing","A pixel of zero inverse uncertainty changes neither likelihood nor gradient, whatever its value.",["forcepho/src","forcepho/patches"],"Input quantifier.")
na("C35","Superpixel packing is a bijection","Packing an image to superpixels and its coordinates round trips for every admissible size.",["forcepho/patches/storage.py"],"Input quantifier.")
na("C36","Linear flux optimisation gives the weighted least-squares fluxes","For every design matrix the fluxes are the bounded or regularised least-squares solution, with its precision.",["forcepho/fitting.py"],"Input quantifier.")
na("C37","Command line overrides configuration file","For every combination, command line values take precedence over the file's.",["forcepho/config.py"],"Input quantifier.")
na("C38","Catalog conversion and bounds are consistent","Rectified catalogs keep every input value, and generated bounds contain the initial parameters.",["forcepho/superscene.py"],"Input quantifier.")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
