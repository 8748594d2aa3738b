"""Which harnesses decide which property, and how many runs each tier makes."""

RUNTIME_STUBS = [
    "pthread mutexes, condition variables, thread creation and joins, futexes, call_once and static-initialisation guards: simulated by the runtime, real code runs on top of them",
    "scheduler, clocks, sleeps and timers: simulated",
    "heap: simulated allocator with red zones that never reuses memory within a run",
]
COMMON_ASSUMPTIONS = [
    "sampling, not enumeration: a clean batch is evidence, not proof",
    "sequentially consistent interleavings; effects of weaker memory orders are covered only by the happens-before race detector",
    "libstdc++, glog, OpenCV, yaml-cpp and protobuf binaries are trusted; accesses inside them are not preemption points unless their code is inlined into the instrumented objects",
]

POOL_REAL = ["aslam::ThreadPool (aslam_cv_common/include/aslam/common/thread-pool.h, src/thread-pool.cc), compiled from /repo",
             "libstdc++ futures, std::function, containers"]


def pool(*h):
    return {"harnesses": [("threadpool", n, q, t) for n, q, t in h], "real": POOL_REAL, "stub": RUNTIME_STUBS}


RW_REAL = ["aslam::ReaderWriterMutex, aslam::ReaderFirstReaderWriterMutex and the scoped guards (aslam_cv_common), compiled from /repo"]
STATS_REAL = ["statistics::Statistics and timing::Timing registries, collectors and timers (aslam_cv_common), compiled from /repo",
              "libstdc++ streams and containers"]


def rw(*h):
    return {"harnesses": [("rwlock", n, q, t) for n, q, t in h], "real": RW_REAL, "stub": RUNTIME_STUBS}


def stats(*h):
    return {"harnesses": [("stats", n, q, t) for n, q, t in h], "real": STATS_REAL, "stub": RUNTIME_STUBS + ["file system below /simdisk/: simulated, with failing and short operations"]}


IDS_REAL = ["aslam::generateId, aslam::generateUniqueId, HashId and Sensor constructors (aslam_cv_common), compiled from /repo; simulated further processes are copies of the same sources with static state of their own"]
CH_REAL = ["aslam::channels groups, declared channels and channel serialization (aslam_cv_common), compiled from /repo", "OpenCV, Eigen"]
PERSIST_REAL = ["YamlFileSerializable, Sensor, YAML::Save/Load/safeGet and the Eigen conversions (aslam_cv_common), compiled from /repo", "yaml-cpp, libstdc++ streams"]


def simple(exe, real, *h, stub=()):
    return {"harnesses": [(exe, n, q, t) for n, q, t in h], "real": real, "stub": RUNTIME_STUBS + list(stub)}


RIG_REAL = ["aslam::VisualNPipeline, VisualPipeline, VisualNFrame, VisualFrame, NCamera, PinholeCamera, Undistorter base, channels, ThreadPool, id generation, compiled from /repo", "OpenCV core, Eigen"]
RIG_STUB = ["cameras and drivers: simulated images with seeded loss, duplication, delay and reordering",
            "image processing step: harness class that may be slow, fail or correct the timestamp", "undistortion: harness class",
            "kindr (not installed here): minimal stand-in for poses in stub/kindr"]


def rig(*h):
    return simple("npipe", RIG_REAL, *h, stub=RIG_STUB)


SHARED_STUB = ["kindr (not installed here): minimal stand-in for poses in stub/kindr"]
TRACK_REAL = ["aslam::SimpleTrackManager, UniqueTrackIdProvider/ThreadSafeIdProvider, VisualFrame and its channels, compiled from /repo"]
SHARED_REAL = ["cameras, distortions, NCamera, VisualFrame, VisualNFrame, MappedUndistorter, triangulation, match helpers, LSD, KAZE and the helpers of aslam_cv_common, compiled from /repo", "OpenCV, Eigen, yaml-cpp"]

TARGET_STUB = SHARED_STUB + ["the AprilTag library: the simulation decides which tags are found where", "OpenCV's windows"]
SUITES = {
    "C01": pool(("pool_once", 24000, 400000), ("pool_stop", 8000, 150000), ("pool_progress", 8000, 150000), ("pool_group", 4000, 100000)),
    "C02": pool(("pool_group", 32000, 500000), ("pool_once", 8000, 150000), ("pool_progress", 4000, 100000)),
    "C03": pool(("pool_wait", 32000, 500000), ("pool_once", 8000, 150000), ("pool_stop", 4000, 100000)),
    "C04": pool(("pool_progress", 28000, 450000), ("pool_group", 8000, 150000), ("pool_once", 8000, 150000)),
    "C05": pool(("pool_stop", 32000, 500000), ("pool_once", 8000, 150000), ("pool_wait", 4000, 100000)),
    "C06": rw(("rw_mutex", 24000, 400000), ("rw_upgrade", 16000, 300000), ("rw_progress", 8000, 150000)),
    "C07": rw(("rw_upgrade", 36000, 600000), ("rw_mutex", 8000, 150000), ("rw_progress", 4000, 100000)),
    "C08": rw(("rw_progress", 24000, 400000), ("rw_upgrade", 16000, 300000), ("rw_mutex", 8000, 150000)),
    "C09": rw(("rw_inuse", 36000, 600000), ("rw_upgrade", 4000, 100000), ("rw_progress", 4000, 100000)),
    "C10": rig(("rig_sync", 24000, 400000), ("rig_loss", 8000, 150000), ("rig_queue", 4000, 100000), ("rig_latest", 4000, 100000)),
    "C11": rig(("rig_sync", 24000, 400000), ("rig_loss", 8000, 150000), ("rig_queue", 8000, 100000)),
    "C12": rig(("rig_queue", 32000, 500000), ("rig_sync", 8000, 150000), ("rig_latest", 4000, 100000)),
    "C13": rig(("rig_loss", 40000, 700000)),
    "C14": rig(("rig_latest", 40000, 700000)),
    "C15": stats(("stats_registry", 32000, 500000), ("stats_clock", 4000, 100000)),
    "C16": stats(("stats_clock", 32000, 500000), ("stats_registry", 8000, 150000)),
    "C17": simple("ids", IDS_REAL, ("id_threads", 24000, 400000), ("id_processes", 16000, 300000)),
    "C18": simple("channels", CH_REAL, ("channel_ops", 24000, 400000), ("channel_compare", 24000, 400000)),
    "C19": simple("channels", CH_REAL, ("channel_storage", 60000, 1500000), stub=["stored bytes: simulated file with seeded damage"]),
    "C20": simple("persist", PERSIST_REAL, ("persist_files", 12000, 300000), stub=["file system below /simdisk/: simulated, with failing, short and interrupted operations and a full disk"]),
    "C21": simple("shared", TRACK_REAL, ("track_ids", 40000, 800000), stub=SHARED_STUB),
    "C22": simple("shared", SHARED_REAL, ("shared_reads", 14000, 300000), stub=SHARED_STUB),
    "C23": simple("shared", ["drawNRandomElements, FlipNRandomBits and the index helpers (aslam_cv_common), compiled from /repo", "libstdc++ random engines and distributions"],
                  ("random_selection", 60000, 1200000), stub=["std::random_device: simulated entropy (honest, constant, repeating, counting, failing)"]),
    "C24": simple("shared", ["PinholeCamera, UnifiedProjectionCamera, Camera3DLidar, the distortion models, NCamera, createCamera, Sensor and YamlFileSerializable, compiled from /repo", "yaml-cpp, libstdc++ streams"],
                  ("calibration_files", 16000, 400000), stub=["file system below /simdisk/: simulated, with failing, short and interrupted operations, a full disk and crashes", SHARED_STUB[0]]),
    "C25": simple("shared", ["WeightedOccupancyGrid (aslam_cv_common), compiled from /repo", "OpenCV (masks)"], ("occupancy_grid", 40000, 400000)),
    "C26": simple("shared", ["VisualFrame and its channels, channel comparison and cloning, PinholeCamera (bearings), compiled from /repo", "OpenCV, Eigen"],
                  ("frame_content", 50000, 400000), stub=SHARED_STUB),
    "C27": simple("shared", ["eraseIndicesFromVector, eraseIndicesFromContainer, keepOnlyNSortedElements, convertEigenToStlVector (aslam_cv_common), compiled from /repo", "Eigen"],
                  ("index_erase", 50000, 600000)),
    "C28": simple("shared", ["NCamera and the camera and distortion classes it holds, Sensor, compiled from /repo", "Eigen, OpenCV, yaml-cpp"], ("rig_calls", 40000, 600000), stub=SHARED_STUB),
    "C29": simple("shared", ["VisualNFrame, VisualFrame, NCamera, KeypointIdentifier and FeatureTrack, compiled from /repo", "Eigen, OpenCV"], ("nframe_calls", 40000, 600000), stub=SHARED_STUB),
    "C30": simple("shared", ["GyroTwoFrameMatcher, predictKeypointsByRotation, GyroTracker, insertAdditionalCvKeypointsAndDescriptorsToVisualFrame, SimpleTrackManager, VisualFrame and PinholeCamera, compiled from /repo", "OpenCV (optical flow), Eigen"],
                  ("frame_tracking", 12000, 250000), stub=SHARED_STUB + ["descriptor extractor of the tracker: a deterministic stand-in that drops some keypoints, as real extractors do"]),
    "C31": simple("shared", ["Camera, PinholeCamera, UnifiedProjectionCamera, Camera3DLidar, the distortion models and Sensor, compiled from /repo", "Eigen, OpenCV (masks), yaml-cpp"],
                  ("camera_models", 20000, 300000), stub=SHARED_STUB),
    "C32": simple("shared", ["MappedUndistorter, createMappedUndistorter*, undistort-helpers, PinholeCamera, UnifiedProjectionCamera and the distortion models, compiled from /repo", "OpenCV (remap), Eigen"],
                  ("undistort_maps", 16000, 250000), stub=SHARED_STUB),
    "C33": simple("shared", ["FeatureDescriptorRef, FeatureDescriptorConstRef, Hamming and descriptor_utils (aslam_cv_common), compiled from /repo", "Eigen"],
                  ("descriptor_memory", 40000, 500000)),
    "C34": simple("target", ["TargetBase, TargetAprilGrid, DetectorAprilGrid, TargetObservation and the focal length initializers, compiled from /repo", "OpenCV, Eigen, yaml-cpp"],
                  ("calibration_target", 24000, 350000), stub=TARGET_STUB),
    "C35": simple("shared", ["triangulation.cc, FeatureTrack, KeypointIdentifier, VisualNFrame, NCamera and the camera models, compiled from /repo", "Eigen"],
                  ("triangulation", 14000, 180000), stub=SHARED_STUB),
    "C36": simple("features", ["VisualPipeline, BriskVisualPipeline, FreakVisualPipeline, NullVisualPipeline, Undistorter, VisualFrame and its channels, compiled from /repo", "OpenCV (images, keypoints), Eigen"],
                  ("feature_pipelines", 12000, 150000), stub=SHARED_STUB + ["BRISK (not installed here) and OpenCV's SURF and FREAK (not in this OpenCV): deterministic stand-ins with the same interface that record their options and notice being used after they were destroyed"]),
    "C37": simple("geometry", ["PnpPoseEstimator, rejectOutlierFeatureMatchesTranslationRotationSAC, estimateTargetTransformation, getBearingVectorsFromMatches, the camera models, NCamera, VisualFrame and TargetObservation, compiled from /repo", "Eigen"],
                  ("geometric_vision", 24000, 350000), stub=SHARED_STUB + ["OpenGV (not installed here): a stand-in with the same interface; the simulation decides what RANSAC finds and in which iteration, the inliers follow from the observations and poses it was given"]),
    "C38": simple("stats", ["aslam/common/time.h, compiled from /repo", "libstdc++ clocks and strings"], ("time_stamps", 40000, 600000)),
    "C39": simple("drawing", ["drawKeypoints, drawKeypointMatches and VisualFrame with its channels, compiled from /repo", "OpenCV (images, drawing), Eigen"], ("drawings", 6000, 90000), stub=SHARED_STUB),
}
