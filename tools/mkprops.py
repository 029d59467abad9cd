import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Background tasks run exactly once, after their dependencies, and never get lost",
 "Every work item handed to the thread pool is executed exactly once, only after every dependency it was given has finished executing, and the effects of a dependency are visible to it. No work item with satisfied dependencies is ever stranded, whatever the order in which tasks and dependencies are scheduled, complete or are released, and tearing the pool down first executes everything that was ready to run. The pool never runs more items at once than it has workers, and scheduling never blocks on the execution of other work.",
 ["schedules","programs"],"All interleavings of scheduling callers and workers, all acyclic dependency graphs, all worker counts, all points at which handles are dropped or the pool is destroyed.",
 "The unit tests run a few fixed task graphs once each under whatever schedule the OS picks; they cannot sample the window between a dependency finishing and the dependent registering itself.",
 ["cartographer/common/thread_pool.cc","cartographer/common/thread_pool.h","cartographer/common/task.cc","cartographer/common/task.h"],
 [("mutex-protected queue and per-task state machine","common/thread_pool.cc ThreadPool::DoWork/NotifyDependenciesCompleted, common/task.cc Task::AddDependentTask/Execute")],
 ["work item bodies", "handle returned by scheduling"])
p("C02","The bounded blocking queue is a linearizable FIFO with honest timeouts",
 "Concurrent producers and consumers observe the queue as one first-in-first-out sequence: each accepted element is delivered to exactly one consumer, in acceptance order, and the number of queued elements never exceeds the configured capacity. A blocking call waits until it can proceed and is woken when it can; a timed call returns failure only after its full timeout has elapsed on the clock and leaves the queue unchanged, and it never consumes or loses an element on failure.",
 ["schedules","histories"],"All interleavings of push, timed push, pop, timed pop, peek, timed peek, size and wait-until-empty by any number of threads, all capacities, all clock behaviours.",
 "The unit tests use at most two threads and one interleaving per test, and real sleeps for the timeout cases.",
 ["cartographer/common/internal/blocking_queue.h"],
 [("conditions awaited under one mutex","common/internal/blocking_queue.h")],
 ["return values of queue operations stamped with invoke/return order"])
p("C03","Sensor streams are merged completely, in time order, independent of arrival",
 "Within a trajectory every message accepted from the expected sensors is delivered exactly once and unchanged, in non-decreasing time order, except messages older than the trajectory's common start time (the latest first message over its sensors), of which at most the last one before that start is kept per sensor, and only if that sensor has no message exactly at the start. The delivered sequence depends only on the per-sensor streams, not on how their arrivals interleave, stall or burst, and a message is delivered as soon as every sensor that must be waited for has provided later data. After a trajectory is finished or everything is flushed, nothing that was accepted is left undelivered, and one trajectory's delivery is never corrupted by another's.",
 ["inputs","schedules","histories"],"All interleavings and delays of message arrival across sensors and trajectories, sensor dropouts, late trajectories, and finish/flush at any point, for both merging strategies.",
 "The unit tests feed a handful of fixed arrival orders; ordering bugs need particular stalls, equal stamps, or a finish at a particular moment.",
 ["cartographer/sensor/internal/ordered_multi_queue.cc","cartographer/sensor/internal/collator.cc","cartographer/sensor/internal/trajectory_collator.cc"],
 [("k-way merge over per-sensor queues with common start time","sensor/internal/ordered_multi_queue.cc Dispatch/GetCommonStartTime")],
 ["collator callbacks"])
p("C04","Synchronising several range sensors conserves every point, in time order",
 "When scans of several range sensors are synchronised, every measured point of an accepted scan appears in exactly one output, with its intensity, its own sensor's origin and its absolute measurement time preserved, and points inside one output are sorted by time and not later than the output's timestamp. Outputs cover consecutive, non-overlapping time intervals. This holds for scans arriving in time order from any mix of sensors with dropouts, repeats and overlaps: an interval is output as soon as every sensor has delivered a scan or one sensor has delivered two, and a point is dropped only when it was measured before an interval that had already been output when its scan was merged.",
 ["inputs","histories","fault_sequences"],"All arrival orders, overlaps, dropouts, duplicates and delays of scans from any set of expected sensors.",
 "Unit tests feed short fixed sequences from two sensors.",
 ["cartographer/mapping/internal/range_data_collator.cc","cartographer/mapping/internal/range_data_collator.h"],
 [("per-sensor pending scan and interval cropping","mapping/internal/range_data_collator.cc CropAndMerge")],
 ["returned synchronised scans"])
p("C05","Loop-closure searches complete exactly once, with schedule-independent results",
 "Each request to be told when outstanding constraint searches are done is answered exactly once, only after every search requested before it has finished, and with exactly the constraints found by those searches: none lost, none duplicated, none from a later round. The found constraints and their values depend only on the requested searches, never on how worker threads interleave, and the count of finished nodes grows without gaps up to the number announced.",
 ["schedules","histories"],"All interleavings of the caller and any number of worker threads, over any sequence of search requests, end-of-node notifications, matcher deletions and completion requests.",
 "The only tests of the builder are not in the stable set here and use a mocked pool or one schedule.",
 ["cartographer/mapping/internal/constraints/constraint_builder_2d.cc","cartographer/mapping/internal/constraints/constraint_builder_3d.cc"],
 [("finish-node and when-done tasks with dependencies on all searches","mapping/internal/constraints/constraint_builder_2d.cc NotifyEndOfNode/WhenDone/RunWhenDoneCallback")],
 ["completion callback result","finished node count"])
p("C06","Global SLAM processes everything it was given and always comes to rest",
 "Every node, sensor reading and command given to global SLAM takes effect exactly once and in the order given, whatever the background threads are doing; nothing is lost or left queued. Asking for the final optimization always returns in bounded work, without deadlock, and afterwards every inserted node is part of the optimised graph with its insertion constraint to each of its submaps. Trajectories are reported as connected exactly when constraints between them (or their initial or frozen placement) tie them together. Notifications of finished optimizations arrive with non-decreasing last-optimised positions per trajectory, naming exactly the last node and submap that had been taken into the optimised graph.",
 ["schedules","histories"],"All interleavings of the adding thread, background workers, concurrent readers, and any sequence of nodes, sensor data, trajectories, and final optimizations, in 2D and 3D.",
 "The pose-graph tests do not run in the stable set here and sample one schedule; a lost wake-up or a dropped work item needs a particular interleaving.",
 ["cartographer/mapping/internal/2d/pose_graph_2d.cc","cartographer/mapping/internal/3d/pose_graph_3d.cc","cartographer/mapping/internal/work_queue.h"],
 [("work queue drained by one background task chain","pose_graph_2d.cc AddWorkItem/DrainWorkQueue/HandleWorkQueue/WaitForAllComputations")],
 ["public getters after final optimization","global optimization callback"])
p("C07","Readers of the map see consistent, untorn state while SLAM runs",
 "Queries on the global map that run concurrently with mapping, optimization, trimming and loading never observe torn or dangling data: node and submap sets returned by one query refer only to each other's existing members, poses are proper finite rigid transforms, ids already reported never change their immutable data, and node ids grow by one per trajectory. When an optimization is reported, everything not yet optimised is placed by the same local-to-global transform that is reported for its trajectory, so nothing is left behind. No two threads access the same mutable map state without synchronisation.",
 ["schedules","histories"],"All interleavings of any number of reader threads with the mapping thread and the background workers.",
 "Tests read the map only when it is idle; torn reads and missing locks show only under particular interleavings.",
 ["cartographer/mapping/internal/2d/pose_graph_2d.cc","cartographer/mapping/internal/3d/pose_graph_3d.cc","cartographer/mapping/map_builder.cc","cartographer/mapping/2d/submap_2d.cc"],
 [("all getters lock the pose graph mutex and copy","pose_graph_2d.cc getters")],
 ["results of public getters and submap queries"])
p("C08","The final map does not depend on thread timing, clocks or observers",
 "For the same inputs in the same order, the map after the final optimization (nodes, submaps, constraints, poses, landmark poses) is the same whatever the number of background workers, the way they interleave, the wall clock does, or readers query.",
 ["schedules","configurations"],"All schedules of background threads, all worker counts, all wall-clock behaviours and all concurrent readers, for a fixed input sequence.",
 "No test runs the same input under two schedules; a schedule-dependent result passes any single run.",
 ["cartographer/mapping/internal/2d/pose_graph_2d.cc","cartographer/mapping/internal/3d/pose_graph_3d.cc","cartographer/mapping/internal/constraints/constraint_builder_2d.cc","cartographer/mapping/internal/constraints/constraint_builder_3d.cc"],
 [("strictly ordered work items; nothing runs while constraints are outstanding","pose_graph_2d.cc DrainWorkQueue")],
 ["state after final optimization"])
p("C09","Trajectory lifecycle commands hold: finish, freeze, delete",
 "Trajectory states only ever move from active to finished, frozen or deleted and from finished or frozen to deleted. A frozen trajectory's node and submap poses never change again, in any query, while the rest of the map is optimised and while the trajectory is still being loaded. After a deletion has been processed none of its nodes, submaps, constraints, landmark observations or sensor data remain while all other trajectories keep theirs. Finishing and deleting are accepted at any time after the data of the trajectory has been handed over, however much of it is still queued; nothing handed over before is lost, and the program keeps running. A trajectory given an initial pose relative to another one starts there, and the other one may be deleted at any time.",
 ["schedules","histories"],"All sequences of add, finish, freeze, delete and data commands on several trajectories, with the background work interleaved arbitrarily between them.",
 "The existing tests do not exercise freeze or delete against running background work.",
 ["cartographer/mapping/internal/2d/pose_graph_2d.cc","cartographer/mapping/internal/3d/pose_graph_3d.cc","cartographer/mapping/internal/pose_graph_data.h","cartographer/mapping/internal/optimization/optimization_problem_2d.cc","cartographer/mapping/internal/optimization/optimization_problem_3d.cc"],
 [("state and deletion-state machine; frozen poses held constant in the solver","pose_graph_2d.cc, optimization_problem_2d.cc")],
 ["trajectory states and map getters"])
p("C10","Trimming keeps the map bounded and internally consistent",
 "While trimming is enabled, a localising trajectory that is still active retains at most the configured number of recent submaps once background work is done, and everything removed disappears together: no constraint, node or stored matcher refers to a removed submap, and a node disappears only when no remaining submap contains it. Nothing belonging to other trajectories is removed, the trajectory keeps a usable tail, and ids of removed entries are never reused.",
 ["schedules","histories","configurations"],"All interleavings of node insertion, constraint search, optimization and trimming, for all retention settings.",
 "Trimmer unit tests use a fake pose graph and no threads.",
 ["cartographer/mapping/pose_graph_trimmer.cc","cartographer/mapping/internal/2d/pose_graph_2d.cc","cartographer/mapping/internal/3d/pose_graph_3d.cc","cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc"],
 [("trimmers run after each optimization under the lock","pose_graph_2d.cc HandleWorkQueue/TrimmingHandle::TrimSubmap")],
 ["map getters after background work"])
p("C11","A saved state restores the same map, and restores it again",
 "Saving the state once background work is idle and loading it in a fresh process yields the same map: every trajectory that has nodes or submaps, with its nodes, submaps (with their grids), constraints, landmarks, trajectory data, stored sensor readings and options, with the same poses and the same ties between trajectories, up to the reported renumbering of trajectories; saving that again gives an equivalent file, and optimizing it gives the same result as optimizing the original. Trajectories loaded as frozen (which by design come without sensor readings and constraints) keep exactly the saved poses through later optimizations, and loading and mapping on top of existing maps disturbs neither. Saving does not change the map. A state saved while background work, trimming or mapping is going on is consistent in itself and can be loaded. If saving is cut short by a disk error it is reported, can be repeated, and a save reported as successful restores completely.",
 ["fault_sequences","histories","configurations","schedules"],"All reachable map states, all disk faults while saving, all schedules of the saving and the loading process, frozen or unfrozen, with or without unfinished submaps.",
 "Existing serialization tests compare fixed protos; the map-builder tests are not in the stable set; none crashes or reschedules.",
 ["cartographer/io/internal/mapping_state_serialization.cc","cartographer/mapping/map_builder.cc","cartographer/mapping/pose_graph.cc","cartographer/io/proto_stream_deserializer.cc"],
 [("ordered message stream with header, and id remapping on load","io/internal/mapping_state_serialization.cc WritePbStream, mapping/map_builder.cc LoadState")],
 ["state read back through the public API after restart"])
p("C12","A state file reported as written is completely on disk",
 "If writing a state file is reported successful, the file holds exactly the messages written, in order, and reading it back returns them all followed by end of stream. Any disk error, short write, full disk or failed close during the write is reported as failure, not success. A write interrupted at any point leaves a file from which reading returns a prefix of the messages written and nothing else.",
 ["fault_sequences","crash_points","inputs"],"All placements of disk errors, short and interrupted writes, full disks and failing opens and closes, and all crash points, over all message sequences.",
 "The stream test writes to a healthy temporary file only.",
 ["cartographer/io/proto_stream.cc","cartographer/io/proto_stream.h"],
 [("stream state checked on close","io/proto_stream.cc ProtoStreamWriter::Close")],
 ["return value of close and the bytes stored"])
p("C13","Damaged state files are never mistaken for good ones",
 "Reading a state file that was truncated, cut short by read errors, delivered in arbitrary short reads, or had stored bytes altered never yields a message that was not written: the reader returns an exact prefix of the written messages and then reports the end or failure, or stops the program loudly. A reader that reports the end of the file has returned every message stored in it; only a file cut exactly between two messages ends regularly before the last one; loading or migrating any other incomplete or unreadable file stops the program instead of going on with a part of it. Undamaged files read back completely however the reads are chunked or interrupted.",
 ["fault_sequences","inputs"],"All truncation points, altered stored bytes, short and interrupted reads and read errors at any offset, over all message sequences.",
 "Tests read back only healthy files.",
 ["cartographer/io/proto_stream.cc","cartographer/io/proto_stream_deserializer.cc","cartographer/common/port.h","cartographer/mapping/map_builder.cc","cartographer/io/serialization_format_migration.cc"],
 [("magic number, length framing and checksummed compression","io/proto_stream.cc ProtoStreamReader::Read, common/port.h FastGunzipString")],
 ["messages and flags returned by the reader"])
p("C14","Exported point clouds and grids are complete or the export fails loudly",
 "When a processing pipeline is run to completion and its flush reports finished, each exported file is complete and correct on disk: every surviving input point exactly once, in order, with its attributes, and a header that matches the number and layout of the points that follow. Any disk error, short write, full disk, failing open or failing close is surfaced by the writer as a failure or stops the program; it never ends in a silently truncated or empty export. Multi-pass pipelines process the full stream again on each requested restart and give the same output for any batching of the stream.",
 ["fault_sequences","inputs","configurations"],"All placements of disk faults in any write, seek, flush, open or close, all batchings of the input, all orders of processors that end in a file.",
 "Existing tests use an in-memory fake file writer, so the real file writer and disk errors are never exercised.",
 ["cartographer/io/file_writer.cc","cartographer/io/ply_writing_points_processor.cc","cartographer/io/pcd_writing_points_processor.cc","cartographer/io/xyz_writing_points_processor.cc","cartographer/io/hybrid_grid_points_processor.cc","cartographer/io/probability_grid_points_processor.cc","cartographer/io/outlier_removing_points_processor.cc"],
 [("checked writes through the file writer; header rewritten on flush","io/ply_writing_points_processor.cc Flush, io/file_writer.cc")],
 ["bytes stored on the simulated disk, flush results"])
p("C15","Format migration loses nothing of an old state file",
 "Migrating a state file of an older format version, or rewriting its submaps, yields a current-version file that contains everything the old one did: all trajectories, nodes, submaps, constraints, landmarks and sensor readings with the same ids, poses and values. This does not depend on how background threads are scheduled during the migration, and a failure to store the result is reported.",
 ["schedules","inputs","fault_sequences"],"All old-format state files, all schedules of the threads used while migrating, all disk faults on the output.",
 "The migration tests migrate one nearly empty stream under one schedule.",
 ["cartographer/io/serialization_format_migration.cc","cartographer/io/internal/pbstream_migrate.cc","cartographer/io/internal/mapping_state_serialization.cc"],
 [("state is loaded into a pose graph and written out again","io/serialization_format_migration.cc MigrateStreamVersion1ToVersion2")],
 ["messages of the migrated stream"])
p("C16","Trajectory connectivity is a thread-safe, exact union of reported links",
 "Two trajectories are reported as transitively connected exactly when the links reported so far join them; link counts, last link times and component lists agree with the same set of links. Concurrent reporting and querying from any number of threads behaves as if the calls happened one at a time, so that a connection once observed is never missing afterwards.",
 ["schedules","histories"],"All interleavings of any number of reporting and querying threads over any sequence of links.",
 "Unit tests are single-threaded.",
 ["cartographer/mapping/internal/connected_components.cc","cartographer/mapping/internal/trajectory_connectivity_state.cc"],
 [("union-find behind a mutex","mapping/internal/connected_components.cc")],
 ["query results stamped with invoke/return order"])
p("C17","Exported metrics count every event exactly once under concurrency",
 "Counters, gauges and histograms obtained from a metrics family for the same labels refer to one metric, for different labels to different metrics, and remain valid for the lifetime of the registry. Values collected after any number of threads have recorded events equal exactly the sum of what was recorded, and collection during recording never fails.",
 ["schedules","histories"],"All interleavings of threads creating, looking up, updating and collecting metrics.",
 "The metrics test is single-threaded.",
 ["cartographer/cloud/metrics/prometheus/family_factory.cc","cartographer/cloud/metrics/prometheus/family_factory.h","cartographer/metrics/register.cc"],
 [("wrapper map guarded by a mutex per family","cloud/metrics/prometheus/family_factory.cc GetOrCreateWrapper")],
 ["collected metric families"])
p("C18","Local SLAM survives any sensor stream and inserts each scan exactly once",
 "For any streams of range, IMU, odometry and fixed-frame data in which each sensor's stamps never go backwards - with lost, late-starting, repeated, jittered, delayed or stalled data - local SLAM neither crashes nor stalls, and every reported pose is finite. Each accumulated scan yields at most one result; results come in non-decreasing time; each inserted scan becomes exactly one node, with consecutive node indices in order. Every inserted scan enters one or two active submaps; each submap receives exactly twice the configured number of scans before it is finished and none afterwards. Scans that did not move enough according to the motion filter are not inserted, and those that did are. With undisturbed sensors the reported poses track the true motion, and results never depend on wall-clock time. Destroying the map builder while background work is pending is safe.",
 ["inputs","fault_sequences","configurations"],"All sensor streams with loss, duplication, delay, reordering across sensors, gaps and stalls, all accumulation and submap sizes, all wall-clock behaviours, in 2D and 3D.",
 "Tests feed one clean synthetic stream.",
 ["cartographer/mapping/internal/2d/local_trajectory_builder_2d.cc","cartographer/mapping/internal/3d/local_trajectory_builder_3d.cc","cartographer/mapping/2d/submap_2d.cc","cartographer/mapping/3d/submap_3d.cc","cartographer/mapping/pose_extrapolator.cc","cartographer/mapping/internal/global_trajectory_builder.cc"],
 [("collation, extrapolation, accumulation and active-submap window","local_trajectory_builder_2d.cc AddRangeData, submap_2d.cc ActiveSubmaps2D::InsertRangeData")],
 ["local SLAM result callback"])
p("C19","The map service acts like a local map builder, whatever its other clients do",
 "A client of the map service gets what a local map builder would have given it: every sensor message it sends reaches its trajectory's builder exactly once, unchanged and in order per sensor; it receives every local SLAM result of its trajectory computed after its subscription took effect, in order, once, and up to the last one; queries, landmark changes, saving and loading answer and act as the map behind the service does. A client cannot feed, finish or delete another client's trajectory. Clients that vanish at any point - in the middle of a stream, a subscription or a call - neither stop the service nor change what other clients get, and every call that reached the service, and its shutdown, ends.",
 ["schedules","fault_sequences","histories"],"All interleavings of the service's event threads, SLAM thread and optimization thread with any number of clients, all message delays, and all points at which clients disappear or the service is shut down.",
 "The handler tests call one handler with a mocked service; the client-server tests are not built here and run one schedule without faults.",
 ["cartographer/cloud/internal/map_builder_server.cc","cartographer/cloud/internal/map_builder_context_impl.h","cartographer/cloud/internal/handlers/","cartographer/cloud/client/map_builder_stub.cc","cartographer/cloud/internal/client/trajectory_builder_stub.cc","cartographer/cloud/internal/client/pose_graph_stub.cc"],
 [("one queue of sensor data, one SLAM thread, locked subscriptions","map_builder_server.cc ProcessSensorDataQueue/OnLocalSlamResult/SubscribeLocalSlamResults"),("ownership by client id","map_builder_context_impl.h CheckClientIdForTrajectory")],
 ["data reaching the trajectory builders behind the service","answers and callbacks at the client"])
p("C20","Uploading to another service keeps order, never repeats, resumes after outages",
 "A service that forwards its trajectories to an uplink delivers to it, per local trajectory, its local SLAM results and its non-range sensor data unchanged, in order and at most once, under whatever outages, delays, lost connections and restarts of the uplink. What reaches one uplink trajectory has no gaps in its local SLAM results and uses one submap numbering of its own; after an interruption the data continue in a new uplink trajectory, starting with a new submap. Finishing a trajectory is passed on. Local SLAM is never held up or disturbed by the uplink's troubles, the service can be shut down in the middle of them, and once they end, forwarding resumes within a bounded number of submaps.",
 ["schedules","fault_sequences"],"All interleavings of robots, SLAM and upload threads, all batch sizes and numbers of trajectories, and all sequences of partitions, broken connections, delays, deadlines and uplink restarts.",
 "There is one test of the uploader, against a healthy server, not built here.",
 ["cartographer/cloud/internal/local_trajectory_uploader.cc","cartographer/cloud/internal/map_builder_server.cc","cartographer/cloud/internal/sensor/serialization.cc","cartographer/cloud/internal/handlers/add_trajectory_handler.cc"],
 [("send queue drained in batches by one thread; recovery by re-registering trajectories","local_trajectory_uploader.cc ProcessSendQueue/TryRecovery/RegisterTrajectory")],
 ["requests arriving at the uplink"])
p("C21","Mapping through the service and its uplink gives the robot's own map",
 "A robot that maps through the service gets the map it would get from a map builder of its own: the same nodes, constraints to its submaps, finished submaps and sensor data, whatever the threads of the service do, and while others look at or save the map. A service above it builds from what is forwarded, per uplink trajectory, a gapless stretch of the robot's nodes with the robot's data, tied to their submaps as on the robot, whose finished submaps are the robot's, and holds no node or sensor data twice or that the robot did not send, under whatever outages and restarts; without outages everything but an incomplete batch gets there. Neither service is stopped by robots that finish, delete or abandon trajectories at any time, by late or missing parts of a trajectory, or by requests for submaps that are not finished.",
 ["schedules","fault_sequences","inputs"],"All interleavings of robots, viewers, event, SLAM, upload and background threads of two services, all network faults and restarts of the uplink between any two messages, 2D and 3D, all sensor configurations, batch sizes and moments of finishing.",
 "The tests of the service run single healthy sessions against mocks and one small real session, and are not built here; no test has two services with real map builders.",
 ["cartographer/cloud/internal/map_builder_server.cc","cartographer/cloud/internal/map_builder_context_impl.h","cartographer/cloud/internal/map_builder_context_impl.cc","cartographer/cloud/internal/handlers/add_sensor_data_batch_handler.cc","cartographer/cloud/internal/handlers/finish_trajectory_handler.cc","cartographer/mapping/internal/submap_controller.h","cartographer/mapping/internal/submap_controller.cc","cartographer/mapping/internal/2d/local_slam_result_2d.cc","cartographer/mapping/internal/3d/local_slam_result_3d.cc","cartographer/cloud/internal/sensor/serialization.cc"],
 [("submaps are created at the uplink when their first scan arrives and completed when they are finished","submap_controller.h UpdateSubmap"),("sensor data are queued and added by one thread","map_builder_server.cc ProcessSensorDataQueue")],
 ["maps of both services through their interfaces, results at the robot, requests of viewers"])
p("C22","Ground truth and accuracy figures are right and stored, or the tool fails",
 "The ground truth derived from a saved map consists of exactly those loop closures that join parts of the way at least the given covered distance apart and agree with the map within the given thresholds, in order, each with the stamps of its two nodes (the closure's node and the node in the middle of its submap), their expected relative pose and the distance covered between them; this also holds for maps of which the beginning has been trimmed. The accuracy figures of a map for given relations are computed for every relation, in order, from the map's poses interpolated at the relation's times (the first or last pose outside the map's time), and are the same for relations given as text and as binary. A tool that reports success has stored its complete result, replacing whatever the file held before: a disk error, short write, full disk, or a missing, unreadable or malformed input makes it stop with a failure.",
 ["inputs","fault_sequences"],"All maps of one trajectory, trimmed or not, with any loop closures, all thresholds, all relations, and all placements of failing opens, reads and writes, short reads and writes and a full disk.",
 "There is no test of these tools, and no test injects disk errors.",
 ["cartographer/ground_truth/autogenerate_ground_truth.cc","cartographer/ground_truth/autogenerate_ground_truth_main.cc","cartographer/ground_truth/compute_relations_metrics_main.cc","cartographer/ground_truth/relations_text_file.cc","cartographer/transform/transform_interpolation_buffer.cc"],
 [("streams are checked after closing","ground_truth/autogenerate_ground_truth_main.cc Run, compute_relations_metrics_main.cc WriteRelationMetricsToFile"),("closures are related to the node in the middle of their submap","ground_truth/autogenerate_ground_truth.cc GenerateGroundTruth")],
 ["exit status of the tools, files they leave, figures they report"])
p("C23","A configuration takes effect completely, or loading or using it fails",
 "Loading a configuration yields exactly the values its files define: each included or read file is taken, whole, from the first of the given directories that has it (the installation's last), inclusions and later overrides apply in order, and choose() picks the value its condition says. A file that is missing, cannot be opened or read to its end, is malformed, or is included twice makes loading stop; no configuration is ever made of part of a file. A value is returned as configured, and asking for a missing key or for another type stops the program. When a dictionary that counts its uses goes away, the program stops if one of its keys was never read or read more than once, and only then, for nested dictionaries and those in arrays alike. A configuration printed (by the tool, in full or one subdictionary of it) and read again has the same keys and values, numbers to six decimals, and printing does not count as use.",
 ["inputs","fault_sequences"],"All trees of included files over several directories with files of the same name, all values, overrides and orders of reading, and all placements of failing opens, failing or short reads, missing, damaged and repeated files, and of one misuse.",
 "The tests load literal code with a file resolver that finds nothing; they never read files, include, or inject a fault.",
 ["cartographer/common/configuration_file_resolver.cc","cartographer/common/lua_parameter_dictionary.cc","cartographer/common/print_configuration_main.cc"],
 [("every file is opened and read whole","common/configuration_file_resolver.cc GetFileContentOrDie"),("no double inclusion","common/lua_parameter_dictionary.cc LuaInclude"),("every key is used exactly once","common/lua_parameter_dictionary.cc CheckAllKeysWereUsedExactlyOnceAndReset")],
 ["values read from the dictionary, whether the program stops, what the tool prints"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
