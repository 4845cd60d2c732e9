#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand with the checks in MANIFEST.json)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))
C='aslam_cv_common/include/aslam/common/'; CS='aslam_cv_common/src/'
K='aslam_cv_cameras/include/aslam/cameras/'; KS='aslam_cv_cameras/src/'

prop('C01','Thread pool runs every accepted task exactly once and keeps group order',
 'Every task accepted by the thread pool runs exactly once and its future delivers the task\'s result (or is ready after it ran), tasks that share an exclusivity group never overlap and run in submission order, and tasks of other groups keep making progress meanwhile. Waiting for an empty queue returns only once every earlier task has finished and always returns when the workers finish; a task submitted after stop is refused with an invalid future and never runs, and destroying the pool runs everything accepted before and joins. No interleaving of producers, workers, waiters and stop deadlocks or loses a wakeup.',
 ['schedules','histories'],'all interleavings of submit / stop / wait / destroy calls and of worker steps, all pool sizes, group assignments and task graphs (tasks that submit or block on other tasks)',
 'The unit tests run a handful of pools under whatever schedule the OS picks; ordering, exclusivity and lost-wakeup faults need specific interleavings.',
 [C+'thread-pool.h',CS+'thread-pool.cc'],[('task queue with group guard set and condition variables','aslam_cv_common/src/thread-pool.cc')],
 ['enqueue','enqueueOrdered','stop','waitForEmptyQueue','numActiveThreads','destructor'],
 [('groups_running','exclusivity groups with a task in flight','thread-pool.h'),('queued_tasks_','accepted, not started tasks','thread-pool.h')])

prop('C02','Reader/writer locks exclude correctly and never lose a wakeup',
 'For both read/write mutex variants, a writer holds the lock alone and any number of readers may hold it together; an upgrade of a read lock succeeds only if it becomes the sole holder without another writer having run in between, at most one concurrent upgrader succeeds and a refused upgrader has given up its read lock, so that the competing upgrade can complete. Every acquire request is eventually granted once conflicting holders release, in every interleaving (no deadlock, no lost wakeup), and the reader-first variant never makes a reader wait for a writer that is only waiting. When all holders have released, the mutex is free again for readers and writers alike.',
 ['schedules','histories'],'all interleavings of any number of threads running programs of read/write acquire, release and upgrade',
 'Tests exercise a few sleeps-and-counters scenarios; exclusion and wakeup faults need particular interleavings.',
 [C+'reader-writer-lock.h',CS+'reader-writer-lock.cc',C+'reader-first-reader-writer-lock.h',CS+'reader-first-reader-writer-lock.cc'],
 [('counters guarded by a mutex plus condition variable predicates','aslam_cv_common/src/reader-writer-lock.cc')],
 ['acquireReadLock','releaseReadLock','acquireWriteLock','releaseWriteLock','upgradeToWriteLock','ScopedReadLock','ScopedWriteLock'])

prop('C03','Channel data survives serialization bit for bit',
 'For every supported value (dense matrices of all supported scalar types and shapes including empty ones, lists of matrices with differing shapes, images of every supported depth and channel count, and numeric scalars) deserializing what was serialized yields a value of the same shape, type and bits. This holds through both the string and the raw-buffer form, which carry the same bytes for the array-like types, and deserializing into a value that already holds other data leaves nothing of the old data. Reported sizes equal the bytes actually written, the source is not modified, and a view with gaps between its rows is never written with other bytes than its own.',
 ['inputs'],'all shapes, scalar types, element bit patterns (NaN, infinities, extremes), image layouts and prior contents of the target',
 'Tests round-trip a few fixed-size random matrices and one image per type.',
 [C+'channel-serialization.h',CS+'channel-serialization.cc',C+'channel.h'],
 [('header with type/rows/cols followed by raw element bytes','aslam_cv_common/include/aslam/common/channel-serialization.h')],
 ['serializeToString/Buffer','deSerializeFromString/Buffer','Channel<T>::serialize*'])

prop('C04','Malformed serialized data is refused without touching memory out of bounds',
 'Deserializing any byte sequence, however truncated, extended or corrupted, from a string or a raw buffer of the stated length, either yields a value or is refused with a false result or a clean error, and never reads outside the supplied bytes, crashes or allocates without bound. A truncated copy of a valid encoding is never accepted, nor is the encoding of a single matrix or image with surplus bytes behind it, or one whose header names another element type or shape than the target holds. After a refusal the target can be used again for a valid decode.',
 ['inputs'],'all byte strings and lengths; in particular every truncation and every header corruption of valid encodings',
 'No existing test feeds malformed data except one null pointer case.',
 [C+'channel-serialization.h',CS+'channel-serialization.cc'],
 [('header and size checks before copying','aslam_cv_common/include/aslam/common/channel-serialization.h')],
 ['deSerializeFromString','deSerializeFromBuffer'])

prop('C05','Channel groups behave as a typed map with deep clones and value equality',
 'Under any sequence of add, read, write, remove, clone and copy operations a channel group contains exactly the named channels with the values last written; a clone shares no storage with its origin (except image pixels, which are shared by design), and two groups compare equal exactly when they hold the same names with equal values, symmetrically and without modifying either. Adding a channel that exists, reading one that does not, or reading with the wrong type is refused, never silently answered. Concurrent use, including comparing two groups with each other from several threads in either order, never deadlocks or corrupts a group.',
 ['histories','schedules','inputs'],'all operation sequences over several groups and data types (matrices, images, scalars), and all interleavings of concurrent calls',
 'Tests use one or two channels in straight-line code and no concurrency.',
 [C+'channel.h',CS+'channel.cc',C+'channel-declaration.h',C+'channel-definitions.h'],
 [('name to channel map guarded by a mutex','aslam_cv_common/include/aslam/common/channel.h')],
 ['addChannel','getChannelData','hasChannel','removeChannel','cloneChannelGroup','isChannelGroupEqual','ChannelGroup copy'])

prop('C06','Identifiers are unique, comparable and survive text and message forms',
 'Generated identifiers never repeat, from any number of threads, and are always valid; an identifier written as hexadecimal text or into a message and read back is the same identifier. Equality, ordering and hashing are consistent with each other and with the text form, and building from text accepts exactly 32 hexadecimal digits, refusing everything else with a false result and leaving the identifier unchanged. Identifiers derived from different integers differ and the same integer always gives the same identifier; an identifier explicitly invalidated reports invalid.',
 ['inputs','schedules'],'all 128-bit values, all strings, all 64-bit seeds, concurrent generation',
 'Tests check a few generated values and one malformed length.',
 [C+'hash-id.h',CS+'hash-id.cc',C+'unique-id.h'],[('two 64-bit words, hex conversion, atomic counter based generation','aslam_cv_common/src/hash-id.cc')],
 ['fromHexString','hexString','operator< == !=','std::hash','serialize/deserialize','generateId','generateIdFromInt'])

prop('C07','Container helpers agree with their obvious reference definition',
 'For every input, erasing by index (from vectors, matrix columns/rows and mixed containers, in any container size and with any valid ordered index list including empty and full ones), keeping or drawing N elements, counting, averaging, median, standard deviation and matrix-to-list conversion give exactly the result of the straightforward definition. Nothing is dropped, duplicated or reordered beyond what is documented, and inputs documented as constant are unchanged. Random draws are without repetition, in range and deterministic for a fixed seed.',
 ['inputs'],'all container lengths, contents (duplicates, negatives, ties) and index lists',
 'Tests use a few fixed lists.',
 [C+'stl-helpers.h',C+'stl-helpers-inl.h'],[('erase-remove with ordered index list','aslam_cv_common/include/aslam/common/stl-helpers-inl.h')],
 ['eraseIndicesFromContainer','eraseIndicesFromVector','keepOnlyNSortedElements','drawNRandomElements','median','mean','stddev'])

prop('C08','Time conversions are exact, monotone and reversible',
 'Converting between seconds, milliseconds, microseconds and nanoseconds is correct to the precision of the result type and exact for whole units, keeps order and sign, and converting there and back returns the starting value to double precision. The textual form of a nanosecond time denotes that same time for every value, including negative ones, and different times have different texts. The invalid time is recognised as invalid and every other value that may be stored as a timestamp as valid.',
 ['inputs'],'all 64-bit nanosecond values and representable doubles',
 'Tests check two or three constants.',
 [C+'time.h'],[('scaling by powers of ten and sprintf-free formatting','aslam_cv_common/include/aslam/common/time.h')],
 ['to_seconds and friends','secondsToNanoSeconds','timeNanosecondsToString','isValidTime'])

prop('C09','Binary descriptor operations equal their bitwise definition',
 'The Hamming distance between any two descriptors of a supported length is the number of differing bits, whichever implementation the build selects, is symmetric and zero only for equal descriptors, and the per-bit mean, standard deviation, medoid and bit-access helpers agree with a plain bit-by-bit computation. A descriptor reference that does not own its bytes leaves them alone and aliases them, while an owning one copies, and copying, moving, assigning, swapping or releasing either kind never double frees, leaks or changes unrelated bytes. Descriptors read outside their bounds are never accessed.',
 ['inputs','histories'],'all descriptor lengths supported (multiples of 16 bytes and short tails where supported), all bit patterns, any set of descriptors, any sequence of reference operations',
 'Tests use 48-byte descriptors with few patterns.',
 [C+'hamming.h',C+'hamming-inl.h',C+'descriptor-utils.h',C+'feature-descriptor-ref.h',C+'feature-descriptor-ref-inl.h'],
 [('SSSE3 popcount with table fallback','aslam_cv_common/include/aslam/common/hamming-inl.h')],
 ['GetNumBitsDifferent','Hamming functor','descriptor_utils','FeatureDescriptorRef'])

prop('C10','Running statistics and timers report what was recorded',
 'For any sequence of recorded samples the reported count, total, mean, minimum and maximum equal those of the whole sequence, and the rolling mean, variance, standard deviation, retained samples and last value equal those of the most recent window of the configured size (the whole sequence where the window is unlimited). Samples recorded from several threads under the same name are all counted once, distinct names never mix, the same name always maps to the same handle, and resetting returns to the empty state. Timers add exactly one sample per start/stop pair and none when discarded or stopped twice.',
 ['histories','inputs','schedules'],'all sample sequences longer and shorter than the window, any set of names, concurrent recording',
 'No unit test covers the statistics classes.',
 [C+'statistics/accumulator.h',C+'statistics/statistics.h',CS+'statistics.cc',C+'timer.h',CS+'timer.cc'],
 [('circular sample window and running sums','aslam_cv_common/include/aslam/common/statistics/accumulator.h')],
 ['Accumulator','StatsCollectorImpl','Statistics::Get*','Timing::Get*'])

prop('C11','Occupancy grid keeps the points it should and enforces its limits',
 'After any sequence of insertions, conditional insertions and thinning operations the grid holds exactly the points a straightforward cell-by-cell model holds: each point lies in the cell covering its coordinates for every coordinate inside the image, and conditional insertion accepts or replaces exactly according to the minimum distance and weight rule. Limiting points per cell or overall keeps the highest weighted points of the cells concerned, never leaves more than the limit, never drops more than needed, and works for every limit. Masks and point lists extracted from the grid describe the stored points.',
 ['histories','inputs'],'all grid geometries, point coordinates (cell borders, image borders), weights (ties) and limits',
 'Tests use one fixed grid with a few points.',
 [C+'occupancy-grid.h',C+'occupancy-grid-inl.h'],[('cell vectors sorted by weight','aslam_cv_common/include/aslam/common/occupancy-grid-inl.h')],
 ['addPointUnconditional','addPointOrReplaceWeakestNearestPoints','removePoints*','getAllPointsInGrid','getOccupancyMask'])

prop('C12','Matrices, transforms and scalars survive a YAML round trip; bad input is refused',
 'Any non-empty, fixed or dynamically sized matrix or vector of finite (and not denormal) values written to YAML text and parsed again is bit-identical with the same shape, directly, inside maps and through files. Reading a node whose row or column count, data length or element type does not fit is refused without leaving a partially written value being reported as success. Looking up a missing or ill-typed key reports failure and a present key reports success with the stored value.',
 ['inputs'],'all matrix shapes, element values and malformed documents',
 'Tests use a few fixed matrices.',
 [C+'yaml-serialization.h',C+'yaml-serialization-eigen.h',C+'yaml-file-serialization.h'],
 [('rows/cols/data map with full precision numbers','aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h')],
 ['YAML::convert<Eigen>','YAML::safeGet','YAML::Save/Load','serializeToFile'])

prop('C13','Distortion and undistortion invert each other for every model',
 'Distortion follows the published formula of each model. For every distortion model, every valid parameter set and every point in the part of the image plane where the model is invertible and well conditioned, undistorting a distorted point returns the point and distorting an undistorted point returns the point, to numerical tolerance. The in-place, copying, templated and external-parameter variants agree with one another, the null model and zero-distortion parameters are the identity, and radially symmetric models keep the direction of the point. Parameter validity is decided by value and count alone, invalid parameters are never accepted, and the radial order of points is preserved in the valid region.',
 ['inputs'],'all models (none, radial-tangential, equidistant, fisheye), valid parameters and points including the centre and its neighbourhood',
 'Those tests need unavailable dependencies and check one parameter set each on random points.',
 [K+'distortion.h',K+'distortion-radtan.h',KS+'distortion-radtan.cc',K+'distortion-equidistant.h',KS+'distortion-equidistant.cc',K+'distortion-fisheye.h',KS+'distortion-fisheye.cc',K+'distortion-null.h'],
 [('iterative inversion (Gauss-Newton / closed form)','aslam_cv_cameras/src/distortion-*.cc')],
 ['distort','undistort','distortUsingExternalCoefficients','undistortUsingExternalCoefficients','distortionParametersValid'])

prop('C14','Reported distortion Jacobians are the derivatives of the reported mapping',
 'For every distortion model, valid parameter set and point in its valid region, including the image centre and its neighbourhood, the Jacobian with respect to the point equals the derivative of the distortion mapping and the Jacobian with respect to the parameters equals its derivative with respect to those parameters. Requesting a Jacobian never changes the returned point. Both hold for internally stored and for externally supplied parameters.',
 ['inputs'],'all models, parameters and points',
 'Those tests need unavailable dependencies and use single random points away from the centre.',
 [KS+'distortion-radtan.cc',KS+'distortion-equidistant.cc',KS+'distortion-fisheye.cc',K+'distortion-null.h'],
 [('closed-form derivatives','aslam_cv_cameras/src/distortion-*.cc')],
 ['distort(point, jacobian)','distortParameterJacobian'])

prop('C15','Projection and back-projection invert each other and are classified correctly',
 'For every camera model, intrinsics, distortion and image size, back-projecting a pixel of the image and projecting the ray at any positive range returns the pixel, and projecting a visible point and back-projecting it returns its direction; the single, vectorised, homogeneous and external-parameter forms agree. The status distinguishes visible, outside the image, behind the camera and invalid exactly according to geometry and image size: a point is reported visible only if it projects inside the image and is in front, and pixel-in-image, mask and rolling-shutter-delay queries agree with the pixel coordinates, image size, mask and line delay. Random keypoints and visible 3d points generated by a camera are really inside the image and visible at the requested depth.',
 ['inputs','configurations'],'all camera models (pinhole, unified projection, 3d lidar) x distortions x intrinsics x points including behind-camera, borders and the optical axis',
 'Those tests need unavailable dependencies and use one default camera of each kind.',
 [K+'camera.h',KS+'camera.cc',K+'camera-pinhole.h',KS+'camera-pinhole.cc',K+'camera-unified-projection.h',KS+'camera-unified-projection.cc',K+'camera-3d-lidar.h',KS+'camera-3d-lidar.cc'],
 [('model equations plus status evaluation','aslam_cv_cameras/src/camera-*.cc')],
 ['project3','project4','backProject3','project3Vectorized','backProject3Vectorized','project3Functional','isKeypointVisible','isMasked','rollingShutterDelayNanoSeconds'])

prop('C16','Reported projection Jacobians are the derivatives of the reported projection',
 'For every camera model and every point whose projection is not invalid, the Jacobians with respect to the point (Euclidean and homogeneous), the intrinsics and the distortion parameters equal the derivatives of the projection the same call reports. Asking for any subset of the Jacobians changes neither the projected point nor the status nor the other Jacobians. Externally supplied parameters give what a camera constructed with those parameters gives.',
 ['inputs','configurations'],'all models, parameters, points and subsets of requested Jacobians',
 'Those tests need unavailable dependencies and use default parameters.',
 [K+'camera.h',KS+'camera.cc',KS+'camera-pinhole.cc',KS+'camera-unified-projection.cc',KS+'camera-3d-lidar.cc'],
 [('chain rule through distortion','aslam_cv_cameras/src/camera-*.cc')],['project3','project4','project3Functional'])

prop('C17','Cameras and rigs survive saving, loading, cloning and comparison',
 'Every valid camera or camera rig written to YAML (text or file) and loaded again is equal to the original, including identifiers, labels, sizes, line delay, intrinsics, distortion, extrinsics and, for rigs, their order; a clone is equal and independent: changing one never changes the other. Two objects compare equal exactly when all those attributes are equal, so changing any single attribute makes them unequal. Documents with missing or invalid mandatory fields are refused, never loaded as a half-initialised object.',
 ['inputs','configurations'],'all model/distortion combinations, parameter values, labels and single-attribute changes, and all single-field deletions/corruptions of a valid document',
 'Those tests need unavailable dependencies and cover default cameras.',
 [CS+'sensor.cc',KS+'camera.cc',KS+'ncamera.cc',KS+'distortion.cc',KS+'camera-factory.cc'],
 [('YAML node (de)serialization with type tags','aslam_cv_cameras/src/camera.cc, ncamera.cc')],
 ['serialize','deserialize','serializeToFile','clone','operator==','isEqual'])

prop('C18','A camera rig keeps indices, identifiers, cameras and extrinsics consistent',
 'After any sequence of rig constructions and edits (setting cameras, extrinsics, identifiers, copying, assigning, cloning with or without distortion) the camera, extrinsics and identifier found by index and by camera identifier agree; looking up an unknown identifier reports absence; and both directions of an extrinsic transform are inverse. Copies are deep with respect to edits of the copy\'s cameras and extrinsics. A rig cloned without distortion has the same intrinsics, sizes and extrinsics, no distortion and a lookup table that matches its own cameras.',
 ['histories','configurations'],'all edit sequences on rigs of any size and camera kinds',
 'Those tests need unavailable dependencies and cover one fixed rig.',
 [K+'ncamera.h',KS+'ncamera.cc'],[('identifier to index map rebuilt on edits','aslam_cv_cameras/src/ncamera.cc')],
 ['getCamera','getCameraIndex','get_T_C_B','set_T_C_B','setCamera','cloneRigWithoutDistortion','hasCameraWithId'])

prop('C19','Frames keep per-keypoint data aligned through every edit',
 'After any sequence of set, swap, extend, clear, copy and discard operations every per-keypoint attribute a frame reports (position, uncertainty, orientation, score, scale, 3d position, time offset, descriptor, track id, feature type) is the value last stored for that keypoint: extending appends in order with documented defaults for the gap, per-type views address exactly the keypoints of that type, and discarding untracked observations removes exactly the keypoints without a track from every attribute present and reports their former indices. Copies are deep (images are shared), frames compare equal exactly when their timestamp, validity flag, camera and attributes are equal, and descriptor serialization round-trips. Raw-image coordinates of a keypoint are its projection through the raw camera.',
 ['histories','inputs'],'all operation sequences, attribute subsets, feature types and sizes including zero',
 'Those tests need unavailable dependencies and check set/get of single channels.',
 ['aslam_cv_frames/include/aslam/frames/visual-frame.h','aslam_cv_frames/src/visual-frame.cc'],
 [('channel group with one channel per attribute','aslam_cv_frames/src/visual-frame.cc')],
 ['set*/get*/swap*/extend*','*OfType','discardUntrackedObservations','clearKeypointChannels','operator=='])

prop('C20','Multi-frames and feature tracks reflect exactly the frames put in',
 'After any sequence of setting, unsetting and copying frames a multi-frame reports exactly the frames last set per index, its earliest and latest timestamps are those of the frames that are set, and completeness and validity queries agree with them. Copies own their frames, equality is by content, and a frame is accepted only for the camera of the rig at that index. A feature track lists the observations in the order added and its disparity extent is that of the bounding box of its measurements for any coordinates.',
 ['histories','inputs'],'all operation sequences over rigs of any size, any timestamps and keypoint coordinates (including negative)',
 'Those tests need unavailable dependencies and cover a fixed two-camera case.',
 ['aslam_cv_frames/src/visual-nframe.cc','aslam_cv_frames/include/aslam/frames/feature-track.h','aslam_cv_frames/include/aslam/frames/keypoint-identifier.h'],
 [('vector of frame pointers','aslam_cv_frames/src/visual-nframe.cc')],
 ['setFrame','unSetFrame','getMinTimestampNanoseconds','getMaxTimestampNanoseconds','operator==','getDiagonalSqOfDisparityBoundingBox'])

prop('C21','Track identifiers propagate along matches and stay unique',
 'Applying a list of exclusive matches gives both keypoints of every match the same non-negative track identifier: an identifier already present on one side is kept, a fresh identifier never used before is drawn only when neither side has one, and keypoints without a match keep what they had. Within a frame no two keypoints obtain the same identifier through fresh tracks, across frames and threads. Inserting detector keypoints and descriptors into a frame, first or additionally, keeps their order and values, leaves existing entries untouched and marks them untracked.',
 ['histories','inputs','schedules'],'all chains of frames and exclusive match lists, any keypoint/descriptor sets, concurrent managers',
 'Those tests need unavailable dependencies and cover a few fixed matches.',
 ['aslam_cv_tracker/src/track-manager.cc','aslam_cv_tracker/include/aslam/tracker/track-manager.h','aslam_cv_tracker/src/tracking-helpers.cc'],
 [('shared monotone identifier provider','aslam_cv_tracker/include/aslam/tracker/track-manager.h')],
 ['applyMatchesToFrames','createAndGetTrackIdChannel','insert*CvKeypointsAndDescriptors*'])

prop('C22','Frame-to-frame matching is exclusive, gated and best-scoring',
 'For any two frames, predicted positions and descriptor length up to the supported maximum, every returned match joins existing keypoints, uses each keypoint of either frame at most once, lies inside the large search window around the prediction, exceeds the similarity threshold and belongs to a keypoint with a successful prediction. A keypoint whose best candidate passes the ratio test is matched to it unless another keypoint claims that candidate with a better score, one whose candidates are ambiguous is left unmatched, and keypoints that lose their candidate get the best remaining one above the stricter threshold. The result is a function of the two frames and predictions only: never of earlier matcher runs or of the numbering of the keypoints. Rotating keypoints by a rotation predicts exactly the projection of the rotated ray, with unchanged position and failure flag where that leaves the image.',
 ['inputs','histories'],'all keypoint layouts inside the image, descriptor contents and lengths, predictions (including outside the image) and sequences of matcher runs',
 'No unit test covers the matcher.',
 ['aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h','aslam_cv_matcher/src/gyro-two-frame-matcher.cc','aslam_cv_matcher/src/match-helpers.cc'],
 [('row lookup table, ratio test and inferior-match rounds','aslam_cv_matcher/src/gyro-two-frame-matcher.cc')],
 ['GyroTwoFrameMatcher::match','predictKeypointsByRotation','getBearingVectorsFromMatches'])

prop('C23','Triangulation recovers the observed point or reports that it cannot',
 'Given exact observations of a point in front of at least two cameras with sufficient parallax, every triangulation routine returns success and the point, for any poses of bodies and cameras and whichever frame comes first (the iterative routine for motions that are small compared with the depth, to a few per cent); a shift or rotation of the whole scene moves the result of the linear routines with it and the order of observations does not matter to them. Fewer than two observations are reported as too few by the routines that take lists, and observations without parallax are reported as unobservable by the linear routines rather than answered. Triangulating a feature track equals triangulating its back-projected measurements with its body poses.',
 ['inputs','configurations'],'all poses, rigs, points, numbers of views and observation orders',
 'Those tests need unavailable dependencies, keep one camera at the origin and never call some of the routines.',
 ['aslam_cv_triangulation/src/triangulation.cc','aslam_cv_triangulation/include/aslam/triangulation/triangulation.h'],
 [('rank-revealing QR on stacked ray equations; Gauss-Newton on inverse depth','aslam_cv_triangulation/src/triangulation.cc')],
 ['linearTriangulateFromNViews','linearTriangulateFromNViewsMultiCam','iterativeGaussNewtonTriangulateFromNViews','triangulateFeatureTrack','fastTriangulateFeatureTrack'])

prop('C24','The multi-camera pipeline pairs images by time and delivers complete sets once',
 'For any arrival order and number of workers, images whose timestamps agree within the tolerance end up in the same multi-frame at their camera index, every delivered multi-frame is complete, carries the images submitted, and is delivered once and oldest first among those waiting. Only multi-frames that never became complete may be dropped when later ones complete, retrieving the latest discards exactly the older ones, and the size-limited submission calls block or drop the oldest exactly as documented. Blocking calls return when data or space arrives or on shutdown, in every interleaving.',
 ['histories','schedules','configurations'],'all interleavings of submissions per camera, jittered/duplicate/out-of-order timestamps, missing images, consumers and shutdown',
 'Those tests need unavailable dependencies and cover in-order synthetic feeds.',
 ['aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h','aslam_cv_pipeline/src/visual-npipeline.cc','aslam_cv_pipeline/src/visual-pipeline.cc'],
 [('time-ordered map of multi-frames in progress and completed queue','aslam_cv_pipeline/src/visual-npipeline.cc')],
 ['processImage*','getNext*','getLatestAndClear*','getNumFramesComplete','shutdown'])

prop('C25','Undistortion maps send every output pixel to the right source pixel',
 'For every camera, scale and cropping factor the undistortion map sends each output pixel to the pixel of the input camera that sees the same ray, in every supported map format to its stated resolution, so processing an image samples it exactly there; the output camera has no distortion and the requested size. With full cropping all border pixels of the output come from inside the input image and with no cropping the borders of the input stay inside the output. Converting maps between floating and fixed point form agrees with rounding to the fixed-point resolution.',
 ['inputs','configurations'],'all camera models, distortions, sizes, scales, cropping factors, interpolation methods and maps',
 'Those tests need unavailable dependencies and compare one camera with OpenCV.',
 [C+'undistort-helpers.h','aslam_cv_pipeline/src/undistorter-mapped.cc','aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h','aslam_cv_pipeline/src/test/convert-maps-legacy.cc'],
 [('per-pixel back-projection/projection','aslam_cv_common/include/aslam/common/undistort-helpers.h')],
 ['createMappedUndistorter','buildUndistortMap','MappedUndistorter::processImage','convertMapsLegacy'])

prop('C26','Calibration targets, observations and initialisers are geometrically consistent',
 'Target point indices and grid coordinates convert back and forth without loss for every grid, grid points equal the stored points, and the extents are the distances between opposite borders. An observation answers corner queries for every corner of the target exactly as observed, whether or not the observation is complete. Focal length initialisation from exact views of a target returns the focal length that generated them and ignores incomplete views, and fitted circles and circle intersections satisfy the circle equations.',
 ['inputs'],'all grid sizes, subsets and orders of observed corners, camera poses and focal lengths',
 'Those tests need unavailable dependencies and use one grid.',
 ['aslam_cv_calibration/src/target-base.cc','aslam_cv_calibration/include/aslam/calibration/target-base.h','aslam_cv_calibration/include/aslam/calibration/target-observation.h','aslam_cv_calibration/include/aslam/calibration/helpers.h','aslam_cv_calibration/src/focallength-initializers.cc'],
 [('row-major grid arithmetic, closed-form fits','aslam_cv_calibration')],
 ['pointToGridCoordinates','gridCoordinatesToPoint','TargetObservation','initFocalLength*','InitializerHelpers'])

prop('C27','Line segments lie in the image, follow real edges and filter consistently',
 'Detected line segments start and end inside the image, are at least the configured length, are the same on every run and for any memory layout of the image, and a uniform image yields none. An isolated high-contrast straight edge of sufficient length is reported by segments running along it, and nothing is reported away from edges. Length and angle filters keep exactly the segments whose length or direction is (or is not) in the range, the two angle filters partition the input, and intersection reports the common point of non-parallel lines only.',
 ['inputs','configurations'],'all grey images, synthetic edges of any position and angle, lists of segments and filter ranges',
 'No unit test covers the detector.',
 ['aslam_cv_detector/src/line-segment-detector.cc','aslam_cv_detector/src/lsd/lsd-opencv.cc','aslam_cv_detector/include/lsd/lsd-opencv.h'],
 [('gradient region growing and rectangle refinement','aslam_cv_detector/src/lsd/lsd-opencv.cc')],
 ['LineSegmentDetector::detect','filterSize','filterOutAngle','retainAngle','intersection'])

prop('C28','Nonlinear-scale features are in bounds, reproducible and consistently described',
 'Keypoints detected in the nonlinear scale space lie inside the image with a scale and octave that were configured, the same image gives the same keypoints and descriptors on every run, and each descriptor has the configured length with unit norm. The diffusion step lists sum to the requested time, are positive and of minimal length, and one diffusion step preserves the mean brightness and never leaves the value range of its input. Image filters and statistics used to build the scale space equal their direct definition on the image they are given.',
 ['inputs','configurations'],'all grey images and option combinations, all diffusion times and stability limits',
 'No unit test covers this code.',
 ['aslam_cv_detector/src/kaze/KAZE.cpp','aslam_cv_detector/src/kaze/fed.cpp','aslam_cv_detector/src/kaze/nldiffusion_functions.cpp','aslam_cv_detector/src/kaze/utils.cpp'],
 [('FED / AOS diffusion and determinant-of-Hessian extrema','aslam_cv_detector/src/kaze')],
 ['KAZE','fed_tau_by_process_time','nld_step_scalar','pm_g1..weickert_diffusivity'])

prop('C29','Covariances, hashes and matrix predicates behave as the mathematics says',
 'Rotating a pose covariance keeps it symmetric positive semi-definite with the same block eigenvalues, composes with the group operation and is undone by the inverse transform. Equal matrices hash equally and hashing depends on every coefficient; matrix and image comparison predicates accept exactly the inputs whose shapes agree and whose differences are within the stated tolerance. Numerical Jacobians used as a reference agree with analytic ones on smooth functions.',
 ['inputs'],'all rotations, covariances, matrices and images',
 'Only one covariance test exists and needs unavailable dependencies.',
 [C+'covariance-helpers.h',CS+'covariance-helpers.cc',C+'eigen-hash.h' if False else C+'eigen-hash.h',C+'opencv-predicates.h',C+'numdiff-jacobian-tester.h',C+'predicates.h'],
 [('block rotation, hash combine, finite differences','aslam_cv_common')],
 ['rotateCovariance','std::hash<Eigen>','gtest_catkin::ImagesEqual','NumericJacobian'])

prop('C30','The rotation-aided tracker extends matching by optical flow within its limits',
 'For every history of frames the gyro tracker returns the matches of the rotation-aided matcher plus, for unmatched keypoints of the previous frame that are eligible and can be predicted, those that optical flow finds in the new image starting from the prediction. Eligible are detected keypoints whose status track (accepted matches since their status last changed) is at least as long as the threshold and keypoints carried on by optical flow whose status track is shorter than the maximum; at most the configured fraction of the number of newly detected keypoints is tried, detected ones first (longest tracks first), then the others (shortest first). Keypoints that flow carries on lie inside the image at the required distance from its border, get a descriptor of the new image and are appended to the new frame at the found position with orientation, scale and score of the keypoint they continue; detected keypoints and the previous frame stay as they are, and no keypoint is matched twice.',
 ['histories','inputs'],'all frame sequences, keypoints, rotations, outcomes of matching and optical flow, limits and feature types',
 'The tracker has no test; status and length bookkeeping goes wrong only over several frames.',
 ['aslam_cv_tracker/src/feature-tracker-gyro.cc','aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h'],
 [('status and status track length per keypoint, candidate selection, optical flow','aslam_cv_tracker/src/feature-tracker-gyro.cc')],
 ['GyroTracker::track'],
 [('feature_status_k_km1_','how each keypoint of the last two frames was found','feature-tracker-gyro.h'),('status_track_length_km1_','steps since that status','feature-tracker-gyro.h')])

prop('C31','Pose estimation relates each ray to its landmark and keeps the best support',
 'For every camera or rig, the absolute pose estimator relates each measurement\'s ray in the camera that observed it to its landmark, converts a pixel threshold with the mean focal length to the matching angle, and returns the pose of the robust estimator (refined over the inliers where a rig and refinement are requested), its inliers, distances and iterations, with success exactly when the estimation succeeded. Registration of 3D measurements, each given in the camera that made it, returns the body-to-global pose supported by most correspondences, its inliers being exactly those within the relative threshold, also among outliers and against a rival pose, reproducibly for a fixed seed, and fails for fewer than six correspondences. Two-point outlier rejection splits the matches in order into inliers (supported by the rotation-only or the translation-only model) and outliers, and treats all as outliers with fewer than six matches or inliers.',
 ['inputs'],'all cameras and rigs, measurements, landmarks, outliers, thresholds, iteration limits and outcomes of the robust estimator',
 'The package\'s tests need an unavailable dependency; frame conventions and inlier bookkeeping need generated rigs and outliers.',
 ['aslam_cv_geometric_vision/src/pnp-pose-estimator.cc','aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc','aslam_cv_geometric_vision/include/aslam/geometric-vision/pnp-pose-estimator.h'],
 [('adapters for OpenGV, random sampling with Kabsch alignment','aslam_cv_geometric_vision/src')],
 ['PnpPoseEstimator::absolutePoseRansac','absoluteMultiPoseRansac','absoluteMultiPoseRansac3DFeatures','rejectOutlierFeatureMatchesTranslationRotationSAC'])

prop('C32','A processed image becomes a complete frame of exactly the detected features',
 'Every image that a visual pipeline processes yields a valid frame with a fresh id, the given timestamp, the input camera as raw camera, the output camera as keypoint camera and the raw image, copied or shared as requested; derived pipelines work on the preprocessed image and an image of a wrong size is refused. The BRISK and FREAK pipelines configure their detector and descriptor stage with exactly the given parameters, keep them alive as long as the pipeline and fill every keypoint channel with exactly the keypoints that were described, in order, also when there are none. Drawing keypoints or matches marks each of them on the gray image and leaves all other pixels and the frames as they are.',
 ['inputs','histories'],'all images and image layouts, cameras, preprocessing results, parameters, detected and described keypoints, frames and matches',
 'The feature pipelines and the visualization have no test here (missing dependencies); channel mix-ups and lifetime errors compile.',
 ['aslam_cv_pipeline/src/visual-pipeline.cc','aslam_cv_pipeline/src/visual-pipeline-brisk.cc','aslam_cv_pipeline/src/visual-pipeline-freak.cc','aslam_cv_visualization/src/basic-visualization.cc'],
 [('frame construction, feature channels, drawing','aslam_cv_pipeline/src')],
 ['VisualPipeline::processImage','BriskVisualPipeline','FreakVisualPipeline','drawKeypoints','drawKeypointMatches'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
