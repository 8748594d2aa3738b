#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run this file to rewrite both)."""
import json, os
import suites

C = "aslam_cv_common/"
TP = C + "include/aslam/common/thread-pool.h"
TPC = C + "src/thread-pool.cc"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": list(observe), "hook_needed": hook}}


POOL_STATE = [("groupid_tasks_", "queue of accepted tasks with their exclusivity group", TP),
              ("groupid_exclusivity_guards_", "group number -> is a task of the group running", TP),
              ("num_queued_tasks_", "number of queued tasks", TP),
              ("active_threads_", "workers currently running a task", TP)]
POOL_WHY = ("Schedules: the existing tests run a handful of tasks on real threads and see whichever interleaving "
            "the kernel happens to produce; the ordering of enqueue, dequeue, notification and completion events "
            "and failing allocations are never varied.")

RW = C + "include/aslam/common/reader-writer-lock.h"
RWC = C + "src/reader-writer-lock.cc"
RFC = C + "src/reader-first-reader-writer-lock.cc"
RW_STATE = [("num_readers_", "threads holding read access", RW), ("current_writer_", "a thread holds write access", RW),
            ("pending_readers_, num_pending_writers_, pending_upgrade_", "waiting threads", RW)]
RW_WHY = ("Schedules: the existing tests let a few real threads increment a value; they cannot choose the order in which "
          "acquisitions, releases and upgrades meet, do not cover the reader-first variant, and cannot tell a hang from slowness.")
STAT = C + "include/aslam/common/statistics/statistics.h"
STATC = C + "src/statistics.cc"
TIM = C + "include/aslam/common/timer.h"
TIMC = C + "src/timer.cc"

NP = "aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h"
NPC = "aslam_cv_pipeline/src/visual-npipeline.cc"
VPC = "aslam_cv_pipeline/src/visual-pipeline.cc"
VNF = "aslam_cv_frames/src/visual-nframe.cc"
NP_STATE = [("processing_", "pending sets by timestamp of their first image", NP), ("completed_", "complete sets waiting to be fetched", NP), ("shutdown_", "shut down", NP)]
PIPE_WHY = ("Schedules and fault sequences: the existing tests feed a few perfect images through one to three workers and cannot choose "
            "how images, fetches, shutdown and failures overlap; a lost wake-up or a mixed-up set needs one particular order.")

PROPS = [
    P("C01", "Every accepted task runs exactly once and delivers its own outcome",
      "Every task the thread pool accepts is executed exactly once, and the future returned for it becomes ready only after that execution, carrying exactly that task's return value or exception, with everything the task wrote visible to whoever obtains the outcome. "
      "This holds for any number of threads submitting at the same time, for submissions made from inside running tasks, and when a submission fails for lack of memory, which affects only that submission. "
      "No more tasks execute at a time than the pool has workers.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of submitting threads, workers and waiters; all task mixes (values, exceptions, nested submissions, groups); spurious wake-ups; failing allocations inside a submission.",
      POOL_WHY, [TP, TPC],
      [("enqueueOrdered stores the task under the queue lock", TP), ("run() takes one runnable task under the lock and executes it outside", TPC)],
      POOL_STATE, ["futures returned by enqueue/enqueueOrdered", "effects of the executed callables"]),
    P("C02", "Tasks of one exclusivity group are serialised in submission order",
      "Tasks submitted to the pool with the same group number never execute at the same time, start in the order in which their submissions completed, and each sees everything its predecessors in the group wrote. "
      "This holds whatever other groups and ungrouped tasks are queued, whichever worker runs each of them and also if a task of the group throws.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of submitters and workers over any mix of groups and ungrouped tasks, task durations and exceptions.",
      POOL_WHY + " The only group test uses a few groups with sleeping tasks.", [TP, TPC],
      [("exclusivity guard set when a group task is dequeued and cleared when it is finished", TPC),
       ("guards of skipped groups block later tasks of the same group in one scan", TPC)],
      POOL_STATE, ["start/end events of the callables"]),
    P("C03", "Waiting for an empty pool waits for all earlier work, and returns",
      "A call that waits for the pool to become empty returns only when every task whose submission was completed before the call has finished executing (not merely left the queue), with its effects visible to the caller. "
      "Once all accepted tasks have finished and no more are submitted, every such call returns, whatever number of threads wait at the same time, and also after the pool was stopped or a submission failed for lack of memory.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of waiters, submitters, workers and stop(); several simultaneous waiters; spurious wake-ups; failed submissions.",
      POOL_WHY, [TP, TPC],
      [("waitForEmptyQueue waits until the queue is empty and no worker is active", TPC),
       ("workers announce completion", TPC)],
      POOL_STATE, ["return of waitForEmptyQueue"]),
    P("C04", "No worker idles while a queued task could start; starts are in order",
      "Whenever a task is queued whose group (if any) has no running task and a worker is idle, that task gets started without any further call on the pool: a long or blocked task or group never holds back unrelated tasks while a worker is free. "
      "Ungrouped tasks start in submission order, a single-worker pool starts all tasks in submission order, and the reported number of active threads never exceeds the number of workers.",
      ["schedules", "histories"],
      "All interleavings; task graphs in which tasks block until other tasks or waiters make progress; any number of simultaneous waiters.",
      POOL_WHY + " A lost wake-up or a needlessly idle worker only shows as latency or a hang in one particular schedule.", [TP, TPC],
      [("notification of workers when a task is queued and when a group becomes free", TP), ("scan for the first runnable task", TPC)],
      POOL_STATE, ["set of running tasks when nothing else can happen", "numActiveThreads"]),
    P("C05", "Stopping refuses later work, destruction finishes accepted work",
      "Once a stop request has returned, every later submission is refused with an invalid future and that task never runs, while tasks accepted before it are still executed exactly once; before any stop request no submission is refused. "
      "Destroying the pool returns only after all accepted tasks have finished, always returns once they can finish, and no task runs afterwards. "
      "Stop may be requested from any thread, repeatedly, concurrently with submissions and waits.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of stop(), destruction, submissions (also from inside tasks), waits and workers; failing allocations in submissions.",
      POOL_WHY + " There is no test of stop() racing with submissions.", [TP, TPC],
      [("stop flag checked by enqueueOrdered and by idle workers", TP), ("destructor stops, wakes and joins the workers", TPC)],
      POOL_STATE, ["validity of returned futures", "return of the destructor"]),
    P("C06", "Readers and writers of the lock exclude each other",
      "While a thread holds write access to a reader/writer lock no other thread holds read or write access to it, and while threads hold read access nobody holds write access; any number of threads may read together. "
      "Whatever a writer wrote before releasing is visible to everyone who obtains access afterwards. "
      "This holds for both variants of the lock, for plain and for scoped (also moved) lock objects and after successful and refused upgrades.",
      ["schedules", "histories"],
      "All interleavings of readers, writers and upgraders of both lock variants; spurious wake-ups.",
      RW_WHY, [RW, RWC, RFC], [("acquire/release/upgrade operations of the lock", RWC), ("reader-first acquire operations", RFC), ("scoped guards release exactly once", RWC)],
      RW_STATE, ["accesses made by lock holders"]),
    P("C07", "Upgrading is atomic, and only one of concurrent upgrades succeeds",
      "A successful upgrade from read to write access returns with exclusive access, and no other thread had write access between the upgrading thread's read acquisition and the return of the upgrade. "
      "An upgrade is refused only if another thread is upgrading at the same time; a refusal gives up the read access, so the other upgrade can complete. "
      "When several readers upgrade at the same time exactly one succeeds, and an upgrade with no competing upgrade always succeeds.",
      ["schedules", "histories"],
      "All interleavings of upgraders with readers and writers of both lock variants; spurious wake-ups.",
      RW_WHY, [RW, RWC, RFC], [("pending upgrade flag decides between upgraders and holds off writers and new readers", RWC)],
      RW_STATE, ["result of upgradeToWriteLock", "accesses made by lock holders"]),
    P("C08", "Waiting for lock access ends, with the promised preference",
      "Once the current holders release a reader/writer lock, every thread waiting for read, write or upgraded access obtains it; nobody waits while nothing stands in the way, and releasing never blocks. "
      "The default variant admits a reader that arrives while a writer or upgrader waits only after that one, so readers cannot starve writers; the reader-first variant admits readers whenever no writer holds the lock. ",
      ["schedules", "histories"],
      "All interleavings in which every holder eventually releases; every state in which all threads wait or hold; spurious wake-ups.",
      RW_WHY + " A lost wake-up shows as a hang in one schedule only.", [RW, RWC, RFC],
      [("notifications on release, upgrade and refusal", RWC), ("wait conditions of readers and writers", RWC), ("reader-first wait conditions", RFC)],
      RW_STATE, ["return of the acquire operations when nothing else can happen"]),
    P("C09", "The lock reports in-use whenever someone holds or waits for it",
      "Asking a reader/writer lock whether it is in use answers yes whenever any thread holds read or write access or is waiting for read, write or upgraded access throughout the query, and no whenever nobody holds it, waits for it or is in the middle of an operation on it. "
      "This holds for both variants of the lock.",
      ["schedules", "histories"],
      "All interleavings of queries with readers, writers and upgraders; both lock variants.",
      RW_WHY, [RW, RWC, RFC], [("isInUse evaluates holders and waiters under the lock's own mutex", RWC), ("waiting threads are counted", RFC)],
      RW_STATE, ["result of isInUse"]),
    P("C10", "Delivered multi-camera frames are whole, synchronised and unmixed",
      "Every multi-camera frame that the pipeline hands out holds exactly one image for each camera of the rig, in that camera's slot, with that camera's geometry, its own pixels, features and timestamp, and all its images lie within the synchronisation tolerance of the image that opened the frame. "
      "Frame ids are valid and unique, the raw image is a copy exactly when copying is switched on, and nothing changes a frame after it was handed out. "
      "An image for a camera that the rig does not have is refused by a check failure, never processed or stored.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of feeding, processing and fetching threads; all timestamps, tolerances, rig sizes and worker counts; images lost, duplicated, delayed, overtaking each other, failing in processing, shifted by timestamp correction; with and without preprocessing and copying.",
      PIPE_WHY, [NP, NPC, VPC, VNF],
      [("match of an image to the pending frame nearest in time", NPC), ("frame creation in the per-camera pipeline", VPC), ("slot check of the multi-camera frame", VNF)],
      NP_STATE, ["frames returned by the fetching calls"]),
    P("C11", "Images reach the output exactly once, in time order",
      "Every image the pipeline takes is processed exactly once, and a set of images of one instant is delivered exactly once, as soon as it and all older pending sets are complete, oldest first: the results of all concurrent calls are those of some order of the processed images and fetches over two queues, pending and complete. "
      "An image joins the pending set nearest in time if that is within the tolerance and opens a new set otherwise; a later image of the same camera replaces an earlier one of a set still pending. "
      "An image whose processing fails affects no other image, and waiting for all work returns only when everything fed before is processed.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of feeders, workers and fetchers, with images arriving late, early, twice, out of order or failing in processing.",
      PIPE_WHY, [NP, NPC, TP],
      [("images are queued to the thread pool", NPC), ("complete sets move to the output in time order", NPC), ("getNext takes the oldest", NPC)],
      NP_STATE, ["frames returned by the fetching calls", "numbers of complete and pending frames"]),
    P("C12", "Pipeline queue limits, blocking calls and shutdown behave as promised",
      "A blocking feed takes its image only while fewer complete frames wait than its limit, a dropping feed removes the oldest complete frame exactly when the limit is reached and says so, and a blocking fetch returns a frame; no call keeps waiting once what it waits for is there. "
      "Shutdown releases every waiting call, makes all later blocking calls return false at once and lets no image fed afterwards be processed; a blocking feed that returns true has its image processed, also if shutdown comes at the same time, and one that returns false never has. "
      "Destroying the pipeline finishes the images already taken and returns.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of feeders, fetchers, workers and shutdown; spurious wake-ups; slow and failing processing; any limits.",
      PIPE_WHY, [NP, NPC],
      [("condition variables for output not full and not empty", NPC), ("shutdown flag and notifications", NPC)],
      NP_STATE, ["return values and returns of the blocking calls"]),
    P("C13", "After lost images the pipeline recovers and loses no complete frame",
      "When an image of a set never arrives, the sets behind it are still delivered: as soon as more than three sets are pending and two consecutive ones are complete, the incomplete sets before them are given up and delivery goes on in time order. "
      "Incomplete sets are given up in no other case, and no complete set is ever discarded by the recovery.",
      ["schedules", "histories", "fault_sequences"],
      "All patterns of lost, failing, late and duplicated images over all cameras, and all interleavings of the threads involved.",
      PIPE_WHY, [NPC],
      [("search for two consecutive complete pending sets", NPC), ("removal of the incomplete sets before them", NPC)],
      NP_STATE, ["frames returned by the fetching calls", "number of pending frames"]),
    P("C14", "Fetching the latest frame discards exactly what is older",
      "Fetching the latest frame, blocking or not, returns the newest complete frame and discards all other complete frames and every pending set that is not newer, and nothing else; images that arrive later for newer instants are unaffected.",
      ["schedules", "histories"],
      "All interleavings of fetches with feeders, workers and other fetchers, including images of already fetched instants that arrive again or late.",
      PIPE_WHY, [NPC],
      [("getLatestAndClear and its blocking variant", NPC)],
      NP_STATE, ["frames returned by the fetching calls", "number of pending frames"]),
    P("C15", "Concurrent statistics and timing samples are never lost or mixed up",
      "Every sample recorded under a statistics or timing tag from any thread is counted exactly once and under that tag: after all recording calls have returned, count, sum, mean, minimum and maximum equal those of the recorded samples, and the variance that of the last 100. "
      "Handles of a tag are unique and stable, and a report or file written while other threads record contains every sample whose recording finished before it started and nothing that was not recorded, without crashing or disturbing the recording. ",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of recording, registering, querying, reporting, writing to file and resetting threads; failing and short writes of the report file.",
      "Schedules: there is no concurrent test of the registries; the torn read or lost update needs a report or registration to overlap another thread's registration.",
      [STAT, STATC, TIM, TIMC], [("all registry access under one mutex", STATC), ("all registry access under one mutex", TIMC)],
      [("stats_collectors_", "per handle accumulators", STAT), ("tag_map_", "tag to handle", STAT), ("timers_", "per handle accumulators", TIM)],
      ["Get* queries, Print and WriteToYamlFile"]),
    P("C16", "Measured durations and rates do not depend on clock adjustments",
      "Durations measured by timers and the rates derived from the last 100 of them, and intervals and rates derived from when statistics samples were recorded, equal the time that really passed between start and stop or between samples, never negative and never off by an adjustment of the wall clock made in between. "
      "Each completed timing records exactly one duration, a discarded one records none, and stopping or discarding is reported correctly by the timer's running state. ",
      ["schedules", "fault_sequences", "histories"],
      "All schedules of timers in several threads, every duration from zero to days, and arbitrary forward and backward wall clock jumps at any point.",
      "Fault sequences: tests run on the machine's clock, which is never set while they run.",
      [TIM, TIMC, STAT, STATC], [("timer start/stop read the clock", TIMC), ("statistics collector reads the clock per sample", STATC)],
      [("time_", "start point of a running timer", TIM), ("last_called / sample time", "previous sample's time", STATC)],
      ["recorded seconds per tag", "GetHz / call delta statistics"]),
    P("C17", "Generated identifiers are valid and never repeat",
      "Every identifier generated in a process is valid and differs from every other identifier generated in it, whichever threads generate at the same time and whatever the clock does meanwhile (coarse, frozen, set back). "
      "Identifiers generated by another process, or by the same program after a restart, differ as well as long as the two processes did not read exactly the same clock value.",
      ["schedules", "histories", "fault_sequences"],
      "All interleavings of generating threads, any number of identifiers of any kind, any clock resolution and adjustment, restarts and several processes.",
      "Schedules and clocks: the tests generate identifiers in one thread of one process on a clock that always advances.",
      [C + "src/internal/unique-id.cc", C + "include/aslam/common/internal/unique-id.h", C + "src/hash-id.cc", C + "include/aslam/common/hash-id.h"],
      [("generation from the clock and a per-process counter", C + "src/internal/unique-id.cc"), ("random hash ids seeded from the clock", C + "src/hash-id.cc")],
      [("instance_counter, type and random state", "static state of the generators", C + "src/internal/unique-id.cc")],
      ["generated identifiers", "identifiers of freshly constructed sensors"]),
    P("C18", "Channel group operations are atomic and never hang; clones are separate",
      "Adding, removing, finding, reading and writing channels, listing, copying, cloning and comparing channel groups from several threads behaves as if each operation happened at one instant: no value is torn or lost, a clone or comparison sees one consistent state of a group, and only one of several threads can add the same channel. "
      "Every operation returns, also when several threads compare or copy the same groups in different orders. "
      "A clone shares no non-image value with its original, and the values of a group do not move while other channels come and go.",
      ["schedules", "histories"],
      "All interleavings of all operations by any number of threads on any number of groups.",
      "Schedules: all channel tests are single-threaded; a deadlock or an inconsistent snapshot needs two operations to overlap in one particular way.",
      [C + "include/aslam/common/channel.h", C + "src/channel.cc", C + "include/aslam/common/channel-declaration.h"],
      [("every operation locks the mutex of its group", C + "include/aslam/common/channel-declaration.h"), ("comparison and copy lock both groups", C + "src/channel.cc")],
      [("channels_", "name to channel", C + "include/aslam/common/channel.h"), ("m_channels_", "lock of the group", C + "include/aslam/common/channel.h")],
      ["results of the channel operations"]),
    P("C19", "Serialized channels come back exactly; damaged bytes are never misread",
      "A value of any supported channel type that is serialized to a string or a buffer and stored intact is restored exactly, bit for bit, also into a channel that held another value. "
      "If storage damaged the bytes of a matrix, list of matrices or image (truncated, extended, overwritten, mixed with older bytes), restoring is refused or yields exactly the value those bytes describe. "
      "In no case is memory outside the given bytes read or the program left with corrupted memory.",
      ["inputs", "fault_sequences"],
      "All values (sizes including empty, all element types, extreme numbers) and all damage to the stored bytes.",
      "Fault sequences: the tests restore what they have just serialized, from undamaged memory.",
      [C + "include/aslam/common/channel-serialization.h", C + "src/channel-serialization.cc", C + "include/aslam/common/channel.h"],
      [("header with dimensions, element type and channels checked against the number of bytes", C + "include/aslam/common/channel-serialization.h"), ("image restore", C + "src/channel-serialization.cc")],
      [("HeaderInformation", "dimensions and element type in front of the data", C + "include/aslam/common/channel-serialization.h")],
      ["restored values", "refusals"]),
    P("C20", "Saved configuration files are complete, or the failure is reported",
      "When saving a sensor configuration or a matrix to a file reports success, the file holds exactly that value, whatever was in it before; if the disk refuses to open, write or close the file the failure is reported. "
      "Loading reports failure for a missing or unreadable file and otherwise gives exactly the value that was saved; a matrix is not loaded into one of another fixed size. "
      "Short and interrupted reads and writes make no difference, and no file stays open.",
      ["inputs", "fault_sequences", "histories"],
      "All values, all sequences of saves and loads of any number of files from several threads, and all sequences of I/O errors, short transfers and full disks.",
      "Fault sequences: the tests write and read small files on a disk that never fails.",
      [C + "include/aslam/common/yaml-file-serialization.h", C + "include/aslam/common/yaml-serialization.h", C + "include/aslam/common/yaml-serialization-eigen.h", C + "src/sensor.cc"],
      [("save to and load from a file", C + "include/aslam/common/yaml-file-serialization.h"), ("matrix conversion", C + "include/aslam/common/yaml-serialization-eigen.h"), ("sensor fields", C + "src/sensor.cc")],
      [], ["content of the file after a save", "result and value of a load"]),
    P("C21", "Track ids are unique and follow the matches",
      "Every track id given to a new feature track differs from all ids given since the last reset, whichever threads apply matches at the same time, and the id provider hands out consecutive ids, starting again only at a reset. "
      "Applying matches to two frames gives both keypoints of a match one id: the existing one if either belongs to a track, a new one otherwise; all other keypoints keep theirs, keypoints without a track stay without. "
      "Matches that use a keypoint twice, point outside the frames or join two different tracks are refused. Copies of a frame do not share track ids with it.",
      ["schedules", "histories"],
      "All interleavings of threads that apply matches to frames of their own and, under the frame's lock, to shared frames; all match sets including contradictory ones; resets and hand-set ids.",
      "Schedules and histories: there is no test of concurrent track managers; a repeated id needs two managers to ask at the same time, a lost one a longer history of frames.",
      ["aslam_cv_tracker/include/aslam/tracker/track-manager.h", "aslam_cv_tracker/src/track-manager.cc", "aslam_cv_frames/src/visual-frame.cc"],
      [("thread-safe id provider shared by all track managers", "aslam_cv_tracker/include/aslam/tracker/track-manager.h"), ("applyMatchesToFrames writes the ids of both frames", "aslam_cv_tracker/src/track-manager.cc")],
      [("id_", "next id", "aslam_cv_tracker/include/aslam/tracker/track-manager.h"), ("TRACK_IDS channel", "ids of a frame's keypoints", "aslam_cv_frames/src/visual-frame.cc")],
      ["track ids of the frames", "ids returned by the provider"]),
    P("C22", "Shared cameras, frames and helpers can be read by many threads at once",
      "Operations that only read shared objects (projecting and back-projecting with cameras and distortions, describing, copying, comparing and serializing cameras, rigs and frames, looking up bearings and channels, undistorting images, triangulating, matching descriptors, and the stateless helpers for descriptors, containers, ids, grids, covariances, line segments and KAZE features) give every thread exactly the result they give a single thread. "
      "They modify nothing that another thread can see (no data race, also on first use), and touch no memory outside the objects involved.",
      ["schedules", "inputs"],
      "All interleavings, including the first use in a process, of any mix of these operations by any number of threads on shared objects of all camera and distortion types.",
      "Schedules: the tests call everything from one thread, where a lazily filled static table or a hidden scratch buffer behaves; and they cannot see an access just beyond a buffer.",
      ["aslam_cv_cameras/include/aslam/cameras/camera.h", "aslam_cv_cameras/include/aslam/cameras/distortion.h", "aslam_cv_frames/include/aslam/frames/visual-frame.h", "aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h", "aslam_cv_triangulation/src/triangulation.cc", "aslam_cv_matcher/src/match-helpers.cc", "aslam_cv_detector/src/line-segment-detector.cc", "aslam_cv_detector/src/kaze/KAZE.cpp", C + "include/aslam/common/hamming.h"],
      [("const methods without mutable state", "aslam_cv_cameras/include/aslam/cameras/camera.h"), ("local buffers", "aslam_cv_detector/src/kaze/KAZE.cpp")],
      [], ["results of every operation, compared with those of a thread alone", "every instrumented memory access"]),
    P("C23", "Random selections are complete, distinct and repeatable on request",
      "Drawing n elements from a list gives min(n, size) distinct positions of it, unchanged and in one piece, and replaces what the output held; drawing everything keeps the order. With the fixed seed the same input always gives the same elements, without using any entropy; otherwise every element can be drawn. Flipping n bits of a descriptor changes exactly n. "
      "This holds for every entropy source (constant, repeating, failing), for lists shared by several threads and when memory runs out, which leaves the input unchanged.",
      ["inputs", "schedules", "fault_sequences"],
      "All sizes and counts, all behaviours of the entropy source, failing allocations, and all interleavings of threads drawing from one list.",
      "Randomness and faults: the tests draw with whatever the machine's entropy happens to be and never see it repeat or fail.",
      [C + "include/aslam/common/stl-helpers.h", C + "include/aslam/common/stl-helpers-inl.h", C + "include/aslam/common/feature-descriptor-ref.h"],
      [("drawNRandomElements samples indices without repetition", C + "include/aslam/common/stl-helpers.h"), ("FlipNRandomBits", C + "include/aslam/common/feature-descriptor-ref.h")],
      [], ["the drawn elements", "the flipped bits"]),
    P("C24", "A saved calibration comes back as the same calibration",
      "When saving a camera or a camera rig to a file reports success, loading the file gives the same calibration: class and type, id, topic, description, intrinsics, distortion model and parameters, image size, line delay and compression, and for rigs all cameras in order, their poses, the optional localization covariance and the lookup by id; points project to the same keypoints. "
      "What the object loaded into held before makes no difference, optional entries that are missing take their default values, and a camera never loads the file of another camera model. "
      "Disk errors are reported, and torn files are refused or loaded without touching memory they should not.",
      ["inputs", "histories", "fault_sequences"],
      "All calibrations of all camera and distortion models, all histories of saving, editing, hand-writing, loading and deleting files in several threads, and all sequences of disk faults and crashes.",
      "Histories and fault sequences: the tests load what they saved into a fresh object from a disk that never fails.",
      ["aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/src/ncamera.cc", "aslam_cv_cameras/src/camera-factory.cc", C + "include/aslam/common/yaml-file-serialization.h", C + "src/sensor.cc"],
      [("loadFromYamlNodeImpl and saveToYamlNodeImpl of cameras", "aslam_cv_cameras/src/camera.cc"), ("loadFromYamlNodeImpl and saveToYamlNodeImpl of rigs", "aslam_cv_cameras/src/ncamera.cc")],
      [("cameras_, T_C_B_, id_to_index_", "content of a rig", "aslam_cv_cameras/include/aslam/cameras/ncamera.h"), ("intrinsics_, distortion_", "calibration of a camera", "aslam_cv_cameras/include/aslam/cameras/camera.h")],
      ["content of the file after a save", "the loaded objects"]),
    P("C25", "The occupancy grid keeps exactly the points its rules say",
      "A weighted occupancy grid holds exactly the points its documented rules leave in it, whatever the history of calls: adding without condition keeps the point; adding to a full cell replaces the weakest point of that cell or changes nothing, and the result says which; adding with a minimum distance keeps exactly the strongest point of the neighbourhood, across the borders of cells; trimming and shrinking remove the weakest points of overfull and of the fullest cells and no others. "
      "Counts, cells, lists and masks always describe the same set of points; every valid coordinate has a cell, invalid ones are refused, nothing outside the grid's memory is touched, and an allocation failure loses or doubles nothing.",
      ["histories", "inputs", "fault_sequences"],
      "All histories of adding, trimming, shrinking, resetting, reweighting and masking with grids of all sizes, cell sizes, coordinate and weight types; failing allocations; several threads with grids of their own and readers of a shared one.",
      "Histories: the tests insert a handful of points into one grid; rounding at the end of the last cell, neighbourhoods across several cells and shrinking below one point per cell need particular sizes and histories.",
      [C + "include/aslam/common/occupancy-grid.h", C + "include/aslam/common/occupancy-grid-inl.h"],
      [("addPointOrReplaceWeakestIfCellFull, addPointOrReplaceWeakestNearestPoints", C + "include/aslam/common/occupancy-grid-inl.h"), ("inputToGridCoordinates", C + "include/aslam/common/occupancy-grid-inl.h")],
      [("grid_", "cells with their points", C + "include/aslam/common/occupancy-grid.h"), ("current_num_points_", "number of points", C + "include/aslam/common/occupancy-grid.h")],
      ["points of every cell", "returned counts", "occupancy masks"]),
    P("C26", "A frame keeps what was put into it, feature by feature",
      "A visual frame returns exactly what was put into it, for every history of setting, swapping, extending, clearing, editing, copying, storing and comparing: measurements, uncertainties, orientations, scores, scales, 3D positions, time offsets, track ids and descriptors of several types stay together feature by feature, and the accessors per feature and per descriptor type agree with those of the whole channels. "
      "Discarding untracked observations removes exactly the untracked features from every channel. Copies are equal and independent of their original, equality means equal content, and calls that cannot be fulfilled are refused without reading or writing beyond the data. "
      "Threads may use different channels of one frame without a lock.",
      ["histories", "inputs", "schedules"],
      "All histories of operations on frames with any subset of channels and any number of descriptor types; all interleavings of threads with their own frames, with shared frames under the frame's lock, and with different channels of one frame.",
      "Histories: the tests set one channel and read it back; channels falling out of step needs several descriptor types, optional channels and a history of changes.",
      ["aslam_cv_frames/include/aslam/frames/visual-frame.h", "aslam_cv_frames/src/visual-frame.cc", C + "include/aslam/common/channel.h"],
      [("discardUntrackedObservations, extend*, clearKeypointChannels", "aslam_cv_frames/src/visual-frame.cc"), ("channels of a frame", C + "include/aslam/common/channel-definitions.h")],
      [("channels_", "all data of a frame", "aslam_cv_frames/include/aslam/frames/visual-frame.h")],
      ["all getters of the frame", "equality of frames"]),
    P("C27", "Selecting and erasing elements affects exactly the elements named",
      "Erasing a list of indices from a vector, matrix (rows or columns), point list or descriptor block removes exactly these elements and keeps the others unchanged, complete and in order, for every size including none and all; an index behind the end or a wrong element count is refused. "
      "Keeping the n best elements keeps n elements that no removed element beats and runs the given action exactly once for every removed one. "
      "The list of indices and a shared input are not modified, and an allocation failure leaves the container as it was.",
      ["inputs", "fault_sequences", "schedules"],
      "All containers, sizes and index sets, failing allocations at every point, and threads that erase from copies of one shared list.",
      "Inputs and faults: the tests erase a few fixed indices; empty lists, complete lists, other container types and allocation failures half-way are not covered.",
      [C + "include/aslam/common/stl-helpers.h", C + "include/aslam/common/stl-helpers-inl.h", C + "include/aslam/common/memory.h"],
      [("eraseIndicesFromVector, keepOnlyNSortedElements", C + "include/aslam/common/stl-helpers.h"), ("eraseIndicesFromContainer", C + "include/aslam/common/stl-helpers-inl.h")],
      [], ["the containers afterwards", "the elements the action was run for"]),
    P("C28", "A camera rig keeps cameras, poses and ids together",
      "For every history of constructing, copying, cloning (with the same ids, new ids or without distortion), replacing cameras, changing poses and covariances, drawing at random and loading, a camera rig answers alike by index and by id: every camera it holds is found under its id at its index with its pose, no other id is found, and ids and indices it lacks are refused. "
      "Clones own their cameras and are independent of the original; clones with new ids have valid, unique ones, and clones without distortion have none. Two rigs compare equal exactly when ids, names, cameras, poses and localization covariance agree. "
      "A failed allocation while cloning leaves the original unchanged, and different rigs may be changed by different threads.",
      ["histories", "fault_sequences", "schedules"],
      "All histories of operations on rigs of any size, failing allocations at every point of a clone, threads with rigs of their own and threads reading a shared one.",
      "Histories: the tests build a rig and query it once; a lookup table or a covariance that falls out of step with the cameras needs a sequence of clone, replace and load.",
      ["aslam_cv_cameras/include/aslam/cameras/ncamera.h", "aslam_cv_cameras/src/ncamera.cc", "aslam_cv_cameras/include/aslam/cameras/camera.h"],
      [("NCamera, initInternal, clone*, setCamera, isEqualImpl", "aslam_cv_cameras/src/ncamera.cc")],
      [("cameras_, T_C_B_, id_to_index_", "cameras of the rig, their poses and the lookup from id to index", "aslam_cv_cameras/include/aslam/cameras/ncamera.h")],
      ["lookups by index and by id", "equality of rigs", "the clones"]),
    P("C29", "Multi-frames keep one frame per camera; tracks keep their observations",
      "A multi-frame holds at most one frame per camera of its rig and returns exactly the frames that were set, for every history of setting, removing, copying, assigning (also to itself) and changing the rig. Copies own copies of the frames, share the rig, and compare equal until one is changed; a failed allocation in an assignment leaves the target unchanged. "
      "Changing the rig hands its cameras to all frames; the minimum and maximum time stamps are those of the frames that are set; impossible requests are refused. "
      "Keypoint identifiers and feature tracks keep referring to the same observation for as long as they live: its data, position, length, ends, order and bounding box are those of the observations that were added.",
      ["histories", "fault_sequences", "schedules"],
      "All histories of operations on multi-frames, keypoint identifiers and tracks of any length, positive and negative coordinates, failing allocations, and threads that work on their own and on shared multi-frames.",
      "Histories and faults: the tests copy a multi-frame once and never assign it to itself, let an allocation fail or change the rig under existing frames.",
      ["aslam_cv_frames/include/aslam/frames/visual-nframe.h", "aslam_cv_frames/src/visual-nframe.cc", "aslam_cv_frames/include/aslam/frames/keypoint-identifier.h", "aslam_cv_frames/include/aslam/frames/feature-track.h"],
      [("operator=, setFrame, setNCameras, getMin/MaxTimestamp", "aslam_cv_frames/src/visual-nframe.cc"), ("FeatureTrack", "aslam_cv_frames/include/aslam/frames/feature-track.h")],
      [("frames_", "one slot per camera", "aslam_cv_frames/include/aslam/frames/visual-nframe.h"), ("keypoint_identifiers_", "the observations of a track", "aslam_cv_frames/include/aslam/frames/feature-track.h")],
      ["all getters of multi-frames, identifiers and tracks", "equality"]),
    P("C30", "Frame-to-frame matching is exclusive, local and independent of history",
      "Matching two frames yields every keypoint at most once, only between keypoints whose position could be predicted, within the search window, and with descriptors similar enough and not ambiguous; the result is the one the documented greedy rule gives, whatever was matched before or is matched by other threads at the same time, for all descriptor sizes and types. "
      "Predicting keypoints by rotation gives one prediction and one flag per keypoint and leaves invisible ones in place. "
      "A gyro tracker that follows a camera adds to a frame only keypoints that were unmatched and eligible by their history, in order of priority and within the limit, with consistent indices, descriptors and channels, and changes no detected keypoint; every eligible keypoint that optical flow finds again is added.",
      ["inputs", "histories", "schedules", "fault_sequences"],
      "All pairs of frames with any number of keypoints, several descriptor types and sizes, search distances and candidate ratios; all image sequences a tracker follows; several threads that match the same and different frames; matching that fails for lack of memory and is repeated.",
      "There is no test of the matcher or the gyro tracker; that a result depends on an earlier call with another descriptor size, or on the order in which candidates are visited, takes histories and inputs near the thresholds.",
      ["aslam_cv_matcher/src/gyro-two-frame-matcher.cc", "aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h", "aslam_cv_matcher/src/match-helpers.cc", "aslam_cv_tracker/src/feature-tracker-gyro.cc", "aslam_cv_tracker/src/tracking-helpers.cc"],
      [("matchKeypoint, matchInferiorMatches, ratioTest", "aslam_cv_matcher/src/gyro-two-frame-matcher.cc"), ("predictKeypointsByRotation", "aslam_cv_matcher/src/match-helpers.cc"), ("computeLKCandidates, lkTracking", "aslam_cv_tracker/src/feature-tracker-gyro.cc")],
      [("is_keypoint_kp1_matched_, kp1_idx_to_matches_iterator_map_", "keypoints that are taken and their matches", "aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h"), ("feature_status_k_km1_, status_track_length_km1_, track_ids_k_km1_", "history of the tracked features", "aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h")],
      ["the matches", "the frame after tracking", "predictions and flags"]),
    P("C31", "A camera answers for exactly the configuration it holds",
      "Whatever a camera went through - construction, changes of single parameters, of the distortion, the image size or the mask, cloning, loading a description or refusing one - it reports the configuration it holds now and every answer follows from it: projections of all kinds (with stored or given parameters, single, vectorised, homogeneous, templated) give the keypoint and the status of the documented model; back-projection returns the direction that projects to a keypoint; the derivatives are the derivatives of that projection; visibility, mask, rolling shutter delay and random keypoints fit the image. "
      "A mask always fits the image, a refused description leaves a usable camera, copies are independent of the original, equality follows the configuration, and impossible requests are refused; a failed allocation while copying leaves the original as it is, and threads may read and copy one camera at the same time.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All histories of operations on pinhole, unified projection and lidar cameras with any distortion model, points in every direction and at every distance including the optical axis and the plane of the camera, keypoints on and beyond the border, failing allocations while copying, and threads with cameras of their own and a shared one.",
      "Histories and inputs: the tests project random points through fresh test cameras; a mask left over from another image size, parameters of a refused file, or the derivative on the optical axis are never visited.",
      ["aslam_cv_cameras/include/aslam/cameras/camera.h", "aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/src/camera-pinhole.cc", "aslam_cv_cameras/src/camera-unified-projection.cc", "aslam_cv_cameras/src/camera-3d-lidar.cc", "aslam_cv_cameras/src/distortion-radtan.cc", "aslam_cv_cameras/src/distortion-equidistant.cc", "aslam_cv_cameras/src/distortion-fisheye.cc"],
      [("project3, project4, setMask, isMasked, loadFromYamlNodeImpl", "aslam_cv_cameras/src/camera.cc"), ("project3Functional, backProject3 of the camera models", "aslam_cv_cameras/src/camera-unified-projection.cc")],
      [("intrinsics_, distortion_, image_width_, image_height_, mask_", "the configuration of a camera", "aslam_cv_cameras/include/aslam/cameras/camera.h")],
      ["keypoints, rays, derivatives and projection results", "the getters of cameras and distortions"]),
    P("C32", "An undistorted image shows every direction where its output camera says",
      "For every input camera (pinhole or unified projection, any distortion), scale, alpha, interpolation and map type, each pixel of an image undistorted with mapped undistorters shows what the input image shows in the direction that the output camera back-projects to that pixel: the maps are the projection of that direction into the input image, directions that the input camera does not see are outside of the input image, and the processed image is the remapped input. "
      "The output camera is a pinhole or unified projection camera without distortion, with the requested size and, for the optimal new camera matrix, a field of view that follows alpha. The undistorter copies its cameras: changing or destroying the originals has no effect; undistorters can be shared by threads, and impossible requests are refused.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All input cameras, scales, alphas, interpolations and map types, images of any content (continuous or regions of wider ones), histories of changes to the original cameras, failing allocations, and threads that undistort with one shared undistorter.",
      "Inputs and histories: there is no test of the undistorter; a mirrored direction behind the image plane, a far away pixel that wraps around in fixed point or a camera shared instead of copied shows only for wide fields of view, particular map types or later changes.",
      ["aslam_cv_pipeline/src/undistorter-mapped.cc", "aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h", "aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h", "aslam_cv_pipeline/include/aslam/pipeline/undistorter.h", C + "include/aslam/common/undistort-helpers.h"],
      [("buildUndistortMap, getOptimalNewCameraMatrix", C + "include/aslam/common/undistort-helpers.h"), ("createMappedUndistorter*", "aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h"), ("MappedUndistorter::processImage", "aslam_cv_pipeline/src/undistorter-mapped.cc")],
      [("map_u_, map_v_, interpolation_method_", "the undistortion maps", "aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h"), ("input_camera_, output_camera_", "copies of the cameras", "aslam_cv_pipeline/include/aslam/pipeline/undistorter.h")],
      ["the maps and the undistorted images", "the cameras of the undistorter"]),
    P("C33", "Binary descriptors own their memory as declared and bits are counted exactly",
      "For every history of constructing, copying, assigning, allocating, releasing and pointing elsewhere, a descriptor that owns its memory is the only owner, keeps its content until it is changed and frees the memory exactly once; a reference refers to the memory it was given and never frees it. Assigning to or from an owner copies the content, also from a part of the owner's own memory; a released descriptor is empty; a failed allocation leaves both sides as they were. "
      "Bits are set, flipped, read and compared exactly at every position, the Hamming distance is the number of different bits for every size and every place in memory, and means, medians and deviations of descriptors are those of their bits; impossible requests are refused.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All histories of operations on owners, references into other descriptors and into other memory, sizes from none to more than 1000 bytes at any address, failing allocations, and threads that copy and compare the same descriptors.",
      "Histories and inputs: the tests compare a few aligned descriptors of 48 bytes; unaligned memory, sizes that are not a multiple of 16 bytes, assignment from own memory and failed allocations are never visited.",
      [C + "include/aslam/common/feature-descriptor-ref.h", C + "include/aslam/common/feature-descriptor-ref-inl.h", C + "include/aslam/common/hamming.h", C + "include/aslam/common/hamming-inl.h", C + "include/aslam/common/descriptor-utils.h"],
      [("Allocate, Release, operator=, DescriptorMean", C + "include/aslam/common/feature-descriptor-ref-inl.h"), ("SSSE3PopcntofXORed", C + "include/aslam/common/hamming-inl.h"), ("getIndexOfDescriptorClosestToMedian, descriptorMean*", C + "include/aslam/common/descriptor-utils.h")],
      [("data_, size_bytes_, owned_", "memory, size and ownership of a descriptor", C + "include/aslam/common/feature-descriptor-ref.h")],
      ["content, size and address of descriptors", "the heap blocks that are alive", "distances and statistics"]),
    P("C34", "A calibration target is observed exactly where its tags are",
      "For every grid of tags, every set of tags found in an image and every configuration, the observation made of it has exactly the corners of the good tags of the target that lie inside the image border, each under the index of its place on the target and where the detector (and the refinement, unless it moved the corner too far) saw it; bad, wild and partly visible tags contribute nothing, and too few tags or a tag seen twice give no observation. "
      "A complete or partial observation answers every question about its corners, their place on the target and the target (also one that was moved by a calibration, or that its owner gave up) accordingly. A first guess of the focal length depends on complete observations only, fails if there is none, and is right for exact views; a configuration file gives the target it describes or is refused.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All grids, detections in any order with wild, duplicate, bad and partly visible tags, corners exactly at the limits, partial observations in any order of corners, histories of targets, detectors and observations, files with read errors, failing allocations, and threads that share a detector.",
      "Inputs and faults: the tests of this package need the AprilTag library and complete, ordered observations only; they never see a wild tag, a partial observation or a bad file.",
      ["aslam_cv_calibration/include/aslam/calibration/target-observation.h", "aslam_cv_calibration/include/aslam/calibration/target-base.h", "aslam_cv_calibration/include/aslam/calibration/target-aprilgrid.h", "aslam_cv_calibration/src/target-aprilgrid.cc", "aslam_cv_calibration/src/target-base.cc", "aslam_cv_calibration/src/focallength-initializers.cc"],
      [("DetectorAprilGrid::detectTargetInImage, createAprilGridPoints, fromYaml", "aslam_cv_calibration/src/target-aprilgrid.cc"), ("TargetObservation", "aslam_cv_calibration/include/aslam/calibration/target-observation.h"), ("initFocalLengthVanishingPoints, initFocalLengthAbsoluteConic", "aslam_cv_calibration/src/focallength-initializers.cc")],
      [("corner_ids_, image_corners_", "which corners of the target were seen where", "aslam_cv_calibration/include/aslam/calibration/target-observation.h"), ("points_target_frame_", "the target", "aslam_cv_calibration/include/aslam/calibration/target-base.h")],
      ["corners of observations and of targets", "first guesses of the camera parameters", "refusal of configurations and requests"]),
    P("C35", "A triangulated point is where its rays meet, or it is refused",
      "For every number of views, every motion, every rig of cameras and every feature track, each linear triangulation gives the point with the least squared distance to all rays of exactly the given observations - the observed point itself if the observations are exact, wherever the first camera is - and the iterative one gives that point if the observations are exact and well conditioned. Fewer than two views and views whose rays are parallel are refused with the right status, and then no point is given; impossible requests are refused. "
      "A track has exactly the observations that were added and not removed, in order, with their keypoints, cameras and disparity. All of that also holds after failed allocations and if several threads triangulate the same track.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All motions of up to 20 views by up to 3 cameras anywhere on a moving body, with and without noise, in one place, around a point or towards it; histories of appending to, shortening and triangulating tracks of several frames with several keypoints; failing allocations; threads that share a track.",
      "Inputs: the tests of this package triangulate one point from one line of poses, with cameras that do not turn, and do not check the fast and the iterative variants on tracks.",
      ["aslam_cv_triangulation/src/triangulation.cc", "aslam_cv_triangulation/include/aslam/triangulation/triangulation.h", "aslam_cv_frames/include/aslam/frames/feature-track.h", "aslam_cv_frames/include/aslam/frames/keypoint-identifier.h"],
      [("linearTriangulateFromNViews*, iterativeGaussNewtonTriangulateFromNViews, (fastT|t)riangulateFeatureTrack", "aslam_cv_triangulation/src/triangulation.cc"), ("FeatureTrack", "aslam_cv_frames/include/aslam/frames/feature-track.h")],
      [("keypoint_identifiers_", "the observations of a track", "aslam_cv_frames/include/aslam/frames/feature-track.h")],
      ["status and point of a triangulation", "observations and disparity of a track"]),
    P("C36", "A feature pipeline puts into a frame exactly what was found in its image",
      "For every sequence of images, the frame a pipeline makes of an image has the time stamp of the image, the cameras of the pipeline, an id of its own and the image itself - the same memory or a copy of every pixel, as was asked for. A BRISK or FREAK pipeline gives it, in order, exactly the keypoints that the detector found in the processed image and the extractor kept, with position, scale, orientation and score, an uncertainty, and the descriptor that belongs to each - and empty channels if there are none; a null pipeline gives it none of these. "
      "The detector and the extractor get the options of their pipeline, also after these were changed, and live as long as it. Images of a wrong size and missing cameras or steps are refused. A frame never changes when later images are processed, and all of that also holds if several threads use one pipeline and if allocations fail.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "All histories of making pipelines of the three kinds with all options, with and without a processing step that changes the image, changing the options, processing images with no, few or many features of which the extractor drops some, reusing image buffers, dropping pipelines and frames; failing allocations at any point; threads that share a pipeline.",
      "Inputs: no test of the repository runs these pipelines, whose detectors are not part of it; the tests use the null pipeline with one image.",
      ["aslam_cv_pipeline/src/visual-pipeline.cc", "aslam_cv_pipeline/src/visual-pipeline-brisk.cc", "aslam_cv_pipeline/src/visual-pipeline-freak.cc", "aslam_cv_pipeline/src/visual-pipeline-null.cc"],
      [("BriskVisualPipeline::processFrameImpl, initializeBrisk", "aslam_cv_pipeline/src/visual-pipeline-brisk.cc"), ("FreakVisualPipeline::processFrameImpl, initializeFreak", "aslam_cv_pipeline/src/visual-pipeline-freak.cc"), ("VisualPipeline::processImage", "aslam_cv_pipeline/src/visual-pipeline.cc")],
      [("detector_, extractor_", "what finds and describes the features of a pipeline", "aslam_cv_pipeline/include/aslam/pipeline/visual-pipeline-brisk.h")],
      ["channels of a frame", "options given to detector and extractor"]),
    P("C37", "Poses and inliers are those that fit the observations that were given",
      "For every camera, rig, calibration target and set of observations, pose estimation gives the pose that RANSAC found - that of the camera or body in the frame of the landmarks, for rigs refined over all inliers if that was asked for - and as inliers exactly the observations whose ray, in their own camera at its place on the body, deviates from the direction of their landmark by less than the threshold or than the angle of the given pixel error at the mean focal length, with their distances and the iterations used. If no pose is found within the allowed iterations or there are too few observations, that is reported and the pose stays as it was. "
      "Outlier rejection keeps exactly the matches that agree with the rotation or the translation between two frames, in order and each exactly once as inlier or outlier; with fewer than six matches or inliers it reports failure and everything is an outlier. The seed of RANSAC is random or fixed as was asked for. Lists of different length, missing outputs and impossible thresholds are refused. All of that also holds if several threads use one estimator and if allocations fail.",
      ["inputs", "fault_sequences", "schedules"],
      "All sequences of pose estimations for one camera, rigs of up to four cameras anywhere on the body and calibration targets seen in part, and of outlier rejections for bearing vectors and for frames with two kinds of features; errors just below and above the threshold; any iteration in which RANSAC finds its result, also none; failing allocations; threads that share estimator and cameras.",
      "Inputs: the tests of this package are not built here; they estimate one pose without noise and never reject matches, so that thresholds, failures and the assignment of features, inliers and seeds stay open.",
      ["aslam_cv_geometric_vision/src/pnp-pose-estimator.cc", "aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc", "aslam_cv_calibration/src/target-algorithms.cc", "aslam_cv_matcher/src/match-helpers.cc"],
      [("absolutePoseRansac*, absoluteMultiPoseRansac*", "aslam_cv_geometric_vision/src/pnp-pose-estimator.cc"), ("rejectOutlierFeatureMatchesTranslationRotationSAC", "aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc"), ("estimateTargetTransformation", "aslam_cv_calibration/src/target-algorithms.cc")],
      [("random_seed_, run_nonlinear_refinement_", "options of an estimator", "aslam_cv_geometric_vision/include/aslam/geometric-vision/pnp-pose-estimator.h")],
      ["pose, inliers, distances and iterations of an estimation", "inlier and outlier matches"]),
    P("C38", "A time stamp names the same instant in every form",
      "At every moment, the current time is what the wall clock says then, wherever it was set since earlier readings. For every time, positive or negative, conversions from and to seconds, milliseconds and microseconds name the same instant up to a nanosecond and the precision of the number, whole units exactly, and keep the order of times; the text of a time stamp has the same sign, seconds and nanoseconds and can be read back without loss. No time other than the invalid one is invalid.",
      ["inputs", "schedules", "fault_sequences"],
      "All times and durations of either sign, next to powers of ten and next to the current time; clocks that are coarse, jump forward and backward; failing allocations.",
      "Schedules and inputs: the tests convert two or three positive times and only require that the clock gives a valid time.",
      [C + "include/aslam/common/time.h"],
      [("nanoSecondsSinceEpoch, to_*, from_*, timeNanosecondsToString", C + "include/aslam/common/time.h")],
      [], ["return values and texts"]),
    P("C39", "A drawing shows the features of its frame and changes nothing else",
      "A drawing of the keypoints of a frame has the size of the frame's image and three colours, a mark at every keypoint of the requested descriptor type within the image, and the grey values of the image everywhere else; without such keypoints the picture may be left as it was. A drawing of matches shows the first frame's image in the same way, a mark at every matched keypoint of it and a line to the keypoint of the other frame, and nothing else. "
      "The result does not depend on what was in the picture, on other drawings or on other threads; the frames, their images and keypoints never change by it, also when allocations fail; impossible matches and missing pictures are refused.",
      ["inputs", "histories", "schedules", "fault_sequences"],
      "All frames with keypoints of up to three descriptor types, inside and outside of the image, whose image may be a part of a wider one; all pictures the caller may hand in: empty, used, of another size or type, or a header of a frame's image; frames shared by threads; failing allocations at any point.",
      "Inputs: no test of the repository compiles the drawings.",
      ["aslam_cv_visualization/src/basic-visualization.cc", "aslam_cv_frames/src/visual-frame.cc"],
      [("drawKeypoints, drawKeypointMatches", "aslam_cv_visualization/src/basic-visualization.cc")],
      [], ["pictures, frames"]),
]

# Properties without a check in this family: (property record, reason).
NOT_APPLICABLE = []

TECH = "deterministic simulation with fault injection (seeded schedule and fault search)"


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    props = PROPS + [p for p, _ in NOT_APPLICABLE]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    na = [{"property": p["id"], "reason": r} for p, r in NOT_APPLICABLE]
    for p in PROPS:
        s = suites.SUITES.get(p["id"])
        if not s:
            na.append({"property": p["id"], "reason": "check under construction"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + s.get("tech", ""),
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Seeded search over interleavings and faults of the real code inside one simulated process; a clean run is evidence over the explored seeds, not proof. Trusts the simulation runtime (/verif/sim), the compiler's access instrumentation and the system libraries."),
        })
    m = {"version": 1, "setup_cmd": "make -s -j8 all",
         "hooks": {"guard": "none", "enable": "No hook in /repo is needed: the checks compile /repo's unchanged sources with access instrumentation and link them against the simulation runtime, which interposes threads, clocks, heap and file calls.", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Replay a violation with: python3 check.py <property> --replay <file> [--trace]"}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
