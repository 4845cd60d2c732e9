"""Build recipes: which harness and which /repo sources decide each property."""

SAN = ("-fsanitize=address,undefined -fno-sanitize=vptr,function,alignment "
       "-fno-sanitize-recover=all")
SAN_GCC = "-fsanitize=address,undefined -fno-sanitize=vptr,alignment,nonnull-attribute -fno-sanitize-recover=all"

DEFAULTS = dict(
    harness=[], repo=[], flags="", repo_flags="", harness_flags="", opt="-O1 -g1", san=SAN_GCC,
    cxx="g++", shim=False, proto=False, deps=["opencv", "yaml"],
    opencv="core imgproc", libs="", ld="bfd", ldflags="", timing="FALSE",
    budget=400, budget_thorough=3000, fuzz_seconds=0, sched=False,
)

COMMON_ID = ["aslam_cv_common/src/hash-id.cc", "aslam_cv_common/src/internal/*.cc"]

DISTORTION = ["aslam_cv_cameras/src/distortion*.cc"]

CAMERAS = ["aslam_cv_cameras/src/*.cc", "aslam_cv_common/src/sensor*.cc"] + COMMON_ID

CHANNEL = ["aslam_cv_common/src/channel*.cc"]

# Harnesses that own the thread schedule: code under test is compiled with
# -fsanitize=thread but linked against the yield-point stubs of engine/ctlsched.cc.
SCHED = dict(san="", harness_flags="-fsanitize=thread", repo_flags="-fsanitize=thread",
             sched=True, ldflags="-rdynamic")

FRAMES = ["aslam_cv_frames/src/*.cc"]

CHECKS = {
    "C01": dict(harness=["harness/c01.cc"], repo=["aslam_cv_common/src/thread-pool.cc"], deps=[], **SCHED),
    "C02": dict(harness=["harness/c02.cc"], repo=["aslam_cv_common/src/reader-writer-lock.cc",
                "aslam_cv_common/src/reader-first-reader-writer-lock.cc"], deps=[], **SCHED),
    "C03": dict(harness=["harness/c03.cc"], repo=CHANNEL, san="-fsanitize=address", opt="-O0 -g1"),
    "C04": dict(harness=["harness/c04.cc"], repo=CHANNEL),
    "C05": dict(harness=["harness/c05.cc", "harness/c05s.cc"], repo=CHANNEL, **SCHED),
    "C06": dict(harness=["harness/c06.cc"], repo=COMMON_ID, proto=True, deps=[], fuzz_seconds=60, **SCHED),
    "C08": dict(harness=["harness/c08.cc"], deps=[]),
    "C09": dict(harness=["harness/c09.cc"], deps=[], fuzz_seconds=40),
    "C10": dict(harness=["harness/c10.cc", "harness/c10_long.cc|-O2"], repo=["aslam_cv_common/src/statistics.cc", "aslam_cv_common/src/timer.cc"],
                deps=["yaml"], **SCHED),
    "C11": dict(harness=["harness/c11.cc"], deps=["opencv"], fuzz_seconds=40),
    "C12": dict(harness=["harness/c12.cc"], deps=["yaml"]),
    "C13": dict(harness=["harness/c13.cc"], repo=DISTORTION, deps=[]),
    "C14": dict(harness=["harness/c14.cc"], repo=DISTORTION, deps=[]),
    "C15": dict(harness=["harness/c15.cc"], repo=CAMERAS, shim=True, proto=True),
    "C16": dict(harness=["harness/c16.cc"], repo=CAMERAS, shim=True, proto=True),
    "C17": dict(harness=["harness/c17.cc"], repo=CAMERAS, shim=True, proto=True),
    "C18": dict(harness=["harness/c18.cc"], repo=CAMERAS, shim=True, proto=True),
    "C19": dict(harness=["harness/c19.cc"], repo=FRAMES + CAMERAS + CHANNEL, shim=True, proto=True),
    "C20": dict(harness=["harness/c20.cc"], repo=FRAMES + CAMERAS + CHANNEL, shim=True, proto=True),
    "C21": dict(harness=["harness/c21.cc"], repo=["aslam_cv_tracker/src/track-manager.cc", "aslam_cv_tracker/src/tracking-helpers.cc"] + FRAMES + CAMERAS + CHANNEL, shim=True, proto=True, opencv="core imgproc features2d"),
    "C22": dict(harness=["harness/c22.cc"], repo=["aslam_cv_matcher/src/gyro-two-frame-matcher.cc", "aslam_cv_matcher/src/match-helpers.cc", "aslam_cv_common/src/statistics.cc", "aslam_cv_common/src/timer.cc"] + FRAMES + CAMERAS + CHANNEL, ldflags="-Wl,-z,muldefs", shim=True, proto=True),
    "C23": dict(harness=["harness/c23.cc"], repo=["aslam_cv_triangulation/src/triangulation.cc"] + FRAMES + CAMERAS + CHANNEL, shim=True, proto=True),
    "C24": dict(harness=["harness/c24.cc"], repo=["aslam_cv_pipeline/src/visual-npipeline.cc", "aslam_cv_pipeline/src/visual-pipeline.cc",
                "aslam_cv_pipeline/src/visual-pipeline-null.cc", "aslam_cv_pipeline/src/undistorter.cc", "aslam_cv_common/src/thread-pool.cc"] + FRAMES + CAMERAS + CHANNEL, shim=True, proto=True, **SCHED),
    "C25": dict(harness=["harness/c25.cc"], repo=["aslam_cv_pipeline/src/undistorter*.cc", "aslam_cv_pipeline/src/test/convert-maps-legacy.cc"] + FRAMES + CAMERAS + CHANNEL,
                shim=True, proto=True, opencv="core imgproc calib3d", flags="-include opencv2/imgproc/imgproc_c.h"),
    "C26": dict(harness=["harness/c26.cc"], repo=["aslam_cv_calibration/src/target-base.cc", "aslam_cv_calibration/src/focallength-initializers.cc",
                "aslam_cv_calibration/src/target-aprilgrid.cc"] + CAMERAS, shim=True, proto=True, opencv="core imgproc calib3d highgui", flags="-include opencv2/imgproc/imgproc_c.h"),
    "C27": dict(harness=["harness/c27.cc"], repo=["aslam_cv_detector/src/lsd/*.cc", "aslam_cv_detector/src/line-segment-detector.cc"],
                opt="-O2 -g1", opencv="core imgproc highgui"),
    "C28": dict(harness=["harness/c28.cc"], repo=["aslam_cv_detector/src/kaze/*.cpp"], opt="-O2 -g1",
                opencv="core imgproc calib3d features2d highgui imgcodecs"),
    "C29": dict(harness=["harness/c29.cc"], repo=["aslam_cv_common/src/covariance-helpers.cc"], shim=True, libs="-lgtest"),
    "C30": dict(harness=["harness/c30.cc"], repo=["aslam_cv_tracker/src/*.cc", "aslam_cv_matcher/src/gyro-two-frame-matcher.cc", "aslam_cv_matcher/src/match-helpers.cc",
                "aslam_cv_common/src/statistics.cc", "aslam_cv_common/src/timer.cc"] + FRAMES + CAMERAS + CHANNEL, ldflags="-Wl,-z,muldefs -ldl", shim=True, proto=True,
                opencv="core imgproc features2d video"),
    "C31": dict(harness=["harness/c31.cc"], repo=["aslam_cv_geometric_vision/src/*.cc", "aslam_cv_matcher/src/match-helpers.cc"] + FRAMES + CAMERAS + CHANNEL,
                shim=True, proto=True, ldflags="-Wl,-z,muldefs"),
    "C32": dict(harness=["harness/c32.cc"], repo=["aslam_cv_pipeline/src/visual-pipeline*.cc", "aslam_cv_pipeline/src/undistorter.cc", "aslam_cv_visualization/src/*.cc"] + FRAMES + CAMERAS + CHANNEL,
                shim=True, proto=True, opencv="core imgproc features2d", flags="-include opencv2/imgproc/imgproc_c.h", ldflags="-Wl,-z,muldefs"),
    "C07": dict(harness=["harness/c07.cc"], repo=[], deps=[]),
}

PBT = "Generated-input search with shrinking against "
TRUST = ("Holds on every generated case (counts and non-trivial rule in the evidence file); not a proof. Trusts the "
         "harness's reference definition and g++/ASan/UBSan. ")
NOTES = {
    "C01": ("stateful property-based testing under generated thread schedules (controlled scheduler), history invariants",
            "Random and PCT-like schedules of the real thread pool compiled with yield points at every memory access; sequentially consistent interleavings only."),
    "C02": ("stateful property-based testing under generated thread schedules (controlled scheduler), lock model oracle",
            "Random and PCT-like schedules of the real locks compiled with yield points at every memory access; sequentially consistent interleavings only."),
    "C03": (PBT + "round trips of every channel type through both serialized forms, an independent byte-level size model and allocation monitors", TRUST),
    "C04": (PBT + "an independent model of which byte sequences are well-formed, AddressSanitizer bounds and an allocation monitor; structured mutation of valid encodings", TRUST),
    "C05": ("stateful model-based testing against a reference map, plus generated thread schedules (controlled scheduler)", TRUST +
            "Concurrency: sequentially consistent interleavings only. "),
    "C06": (PBT + "byte-level references; generated thread schedules and clock readings for uniqueness", TRUST),
    "C07": (PBT + "naive reference implementations", TRUST),
    "C09": (PBT + "bit-by-bit references; stateful model of owning and aliasing descriptor references with exact heap bounds and live-array accounting", TRUST),
    "C10": ("stateful model-based testing against a recomputed history under a controlled clock, plus generated thread schedules (controlled scheduler)", TRUST +
            "Running sums are compared within the rounding error of a running sum over the history. Concurrency: sequentially consistent interleavings only. "),
    "C11": ("stateful model-based testing against a cell-by-cell reference grid", TRUST),
    "C12": (PBT + "bit-exact round trips, a structural model of which matrix documents are well-formed, an allocation monitor", TRUST),
    "C13": (PBT + "the published distortion formulas in extended precision, round trips and metamorphic relations between the forms", TRUST +
            "Round trips are claimed where the model is well conditioned on a disc holding the point and its image; tolerances follow the documented convergence tolerance, which is itself generated. "),
    "C14": (PBT + "automatic differentiation of the published formulas in extended precision and numerical differentiation of the code", TRUST),
    "C15": (PBT + "the published camera equations in extended precision, round trips between pixels and rays, and agreement of all forms of a projection", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Round trips are claimed where the distortion is well conditioned (see C13) and within 97% of the valid circle of a mirror model. "),
    "C16": (PBT + "automatic differentiation of the published camera equations in extended precision and numerical differentiation of the code; metamorphic relations between subsets of outputs", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). The lidar model offers no Jacobians; only its external parameters are checked. "),
    "C17": (PBT + "an independent record of every attribute read through the getters: round trips through text, nodes and files, single-attribute changes, and structured corruption of documents", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Attribute changes exceed the documented comparison tolerance of 1e-8; text is printable UTF-8. "),
    "C18": ("stateful model-based testing: histories of edits, copies and loads over several rigs against a reference record", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Camera ids within one rig are distinct between edits. "),
    "C19": (PBT + "a naive model of every attribute of a pool of frames: histories of set, swap, edit, extend, clear, discard, copy and (de)serialization, compared through every getter after each step; equality of all pairs", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Feature types within a frame are distinct; attributes may be missing for the last keypoints; NaN is not stored. "),
    "C20": (PBT + "a naive model of a pool of multi-frames sharing and copying frames over several rigs, equality of all pairs, refusal in a forked child; an exact bounding box for tracks", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Timestamps other than the invalid time; at least one frame set when timestamps are asked for. "),
    "C21": (PBT + "a naive model of the identifiers of a pool of frames under histories of matches by several managers, uniqueness over threads of execution, and a naive list of keypoints for insertions", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Matches do not join two different tracks; insertions have one descriptor length. Threads run freely (a stress test), not under a controlled schedule."),
    "C22": (PBT + "the definition of the match (windows, thresholds, ratio test, winner of every contested keypoint, second chances) recomputed from positions and descriptors for histories of matcher runs on frames of different descriptor length; renumbering of keypoints; predictions and bearings against the camera's own single point functions", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). At exact thresholds, window borders off the pixel grid and ties the outcome is left open"),
    "C23": (PBT + "the point that generated exact views (wide angles, any poses, depths and rigs), parallax computed from the true directions; metamorphic shift, rotation and reordering of noisy views; tracks against direct triangulation of the cameras' own rays", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Between the two parallax bounds (about 4 degrees and 0.01 degrees) the status is left open; the iterative routine is only claimed for small baselines and rotations. "),
    "C24": (PBT + "an exact model of both queues for one worker under histories of submissions, retrievals and drops; history invariants for any number of workers, producers and consumers under generated thread schedules (controlled scheduler), with blocked calls decided at quiescent points", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). An image equally far from two multi-frames is not generated; several workers may legitimately drop multi-frames, there only sets that cannot be dropped must arrive. "),
    "C25": (PBT + "per-pixel ray tracing with the published camera models in long double, Newton inverse of the distortion on a dense image border, own interpolation of ramps and random images, and exact decoding of the map formats", TRUST +
            "Compiled with a stand-in for minkindr (/verif/shim). Rays behind the input camera and beyond its well-conditioned disc are only required not to appear at a wrong place inside the image. "),
    "C26": (PBT + "naive index arithmetic, exact pinhole views of generated targets, circle equations in closed form and a simulated tag detector", TRUST +
            "minkindr and ethz_apriltag2 are not installed: compiled against stand-ins in /verif/shim; tag detections are generated. "),
    "C27": (PBT + "synthetic images with known edges, metamorphic relations (memory layout, depth, repetition, minimum length) and exact integer geometry for the filters and the intersection", TRUST +
            "Edge coverage is claimed for anti-aliased (or axis aligned) edges of at least 30 px and 90 grey levels; angles within 0.02 degrees of a filter bound are left open (precision of the fast arctangent). "),
    "C28": (PBT + "the closed form of the FED steps, pixel-by-pixel definitions of every filter, and a scale space and extremum search assembled from them; repeated and reused detectors; unit-norm and length invariants", TRUST +
            "Images from 2x2 pixels up to 120x120; smoothing of at least 0.5 px; maxima within rounding of a tie, of the threshold or of each other are left open. "),
    "C29": (PBT + "block-by-block rotation in closed form, group laws, per-coefficient change of hashed matrices, per-element comparison of images, and analytic derivatives with the truncation and rounding bounds of each difference scheme", TRUST +
            "Compiled with stand-ins for minkindr and eigen-checks (/verif/shim). "),
    "C30": (PBT + "a reference tracker (status and length bookkeeping, candidate selection, appended keypoints) over generated frame histories with the real matcher and generated optical flow outcomes", TRUST +
            "The optical flow of OpenCV is replaced by generated outcomes (its inputs are checked). "),
    "C31": (PBT + "independent geometry of the problem handed to the robust estimator, generated outcomes of it, and recovery of known poses among outliers and against rival poses", TRUST +
            "OpenGV is not installed: compiled against a stand-in (/verif/shim/opengv) that records its problem and returns generated outcomes. Minkindr stand-in as elsewhere. "),
    "C32": (PBT + "the metadata and channels that follow from the generated images, preprocessing results and detector outcomes; geometric distance of changed pixels to everything drawn", TRUST +
            "BRISK and xfeatures2d are not installed: compiled against stand-ins that return generated keypoints and descriptors. "),
    "C08": (PBT + "exact integer/long-double arithmetic and a parser of the text form", TRUST),
}
