"""What is run for each property: harness, parameters, how many seeds."""
SIM = "thread scheduling, wake-up order, clocks, timers, static-initialisation guards and the allocator are the simulator's"
GRAPH = dict(
    real=["mapping/internal/{2d,3d}/pose_graph_*.cc", "mapping/pose_graph.cc", "mapping/internal/optimization/*.cc", "mapping/internal/constraints/constraint_builder_{2d,3d}.cc", "mapping/pose_graph_trimmer.cc", "mapping/internal/2d/overlapping_submaps_trimmer_2d.cc", "common/{task,thread_pool}.cc", "scan matchers, submaps and grids", "libceres (one thread per solve)"],
    stub=["local SLAM is the workload: precomputed scans inserted into real submaps", "ceres::LocalParameterization API on top of Ceres 2.2", SIM],
    assumptions=["per-trajectory data is in time order and stops when the trajectory is finished", "nothing is added while the caller waits for the final optimization", "3D trajectories have IMU data", "sequentially consistent memory; missing ordering is reported as a race instead"])
def graph(focus):
    return dict(GRAPH, campaigns=[dict(harness="posegraph", params=dict(dim=d, focus=focus), quick=1500, quick_s=50, thorough_s=900, limit=120) for d in (2, 3)])
PROPERTIES = {
    "C01": dict(
        campaigns=[dict(harness="taskpool", quick=60000, quick_s=90, thorough_s=1200)],
        real=["common/task.cc", "common/thread_pool.cc"],
        stub=["absl::Mutex/Notification replaced by the simulator's primitives (same semantics)", SIM],
        assumptions=["sequentially consistent memory; missing ordering is reported as a race instead"]),
    "C02": dict(
        campaigns=[dict(harness="bqueue", quick=30000, quick_s=60, thorough_s=1200)],
        real=["common/internal/blocking_queue.h"],
        stub=["absl::Mutex replaced by the simulator's primitives (same semantics)", SIM],
        assumptions=["sequentially consistent memory; missing ordering is reported as a race instead"]),
    "C03": dict(
        campaigns=[dict(harness="collation", quick=30000, quick_s=60, thorough_s=1200)],
        real=["sensor/internal/{ordered_multi_queue,collator,trajectory_collator}.cc", "sensor/internal/dispatchable.h", "mapping/internal/collated_trajectory_builder.cc", "common/internal/blocking_queue.h"],
        stub=["the wrapped trajectory builder records what it is given", "sensor drivers (producer threads)", SIM],
        assumptions=["each sensor's own stream is non-decreasing in time", "nothing is added to a trajectory after it was finished"]),
    "C04": dict(
        campaigns=[dict(harness="rangecollate", quick=30000, quick_s=60, thorough_s=1200)],
        real=["mapping/internal/range_data_collator.cc", "sensor/internal/{ordered_multi_queue,trajectory_collator}.cc", "common/internal/blocking_queue.h", "common/time.cc"],
        stub=["sensor drivers (producer threads)", SIM],
        assumptions=["points of one scan are sorted by time and none is later than the scan's stamp (required by the callers)"]),
    "C05": dict(
        campaigns=[dict(harness="loopclosure", params=dict(dim=2), quick=1500, quick_s=45, thorough_s=900, limit=90),
                   dict(harness="loopclosure", params=dict(dim=3), quick=1500, quick_s=45, thorough_s=900, limit=90)],
        real=["mapping/internal/constraints/constraint_builder_{2d,3d}.cc", "common/{task,thread_pool}.cc", "the 2D and 3D fast correlative and Ceres scan matchers", "submap and grid code", "libceres (one thread per solve)"],
        stub=["the caller (pose graph) is the workload: it asks as the pose graph does, from the main thread and from within the callback", "ceres::LocalParameterization API on top of Ceres 2.2", SIM],
        assumptions=["no search is requested between WhenDone and its callback (the class warns about it)"]),
    "C06": graph(6),
    "C07": graph(7),
    "C08": graph(8),
    "C09": graph(9),
    "C10": graph(10),
    "C11": dict(
        campaigns=[dict(harness="mapper", params=dict(dim=2), quick=900, quick_s=60, thorough_s=900, limit=180),
                   dict(harness="mapper", params=dict(dim=3), quick=600, quick_s=50, thorough_s=900, limit=180)],
        real=["mapping/map_builder.cc", "io/internal/mapping_state_serialization.cc", "io/{proto_stream,proto_stream_deserializer}.cc", "the whole local and global SLAM stack below MapBuilder", "libceres (one thread per solve)", "libstdc++ fstream, zlib"],
        stub=["the robot and its sensors", "the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", "ceres::LocalParameterization API on top of Ceres 2.2", SIM],
        assumptions=["frozen loading leaves out sensor data and constraints by design", "loaded landmarks are fixed by design", "a file cut off exactly between two messages is not recognisable"]),
    "C12": dict(
        campaigns=[dict(harness="pbstream", params=dict(read=0), quick=60000, quick_s=60, thorough_s=1200)],
        real=["io/proto_stream.cc", "common/port.h (gzip)", "libstdc++ fstream", "boost iostreams", "zlib"],
        stub=["the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", SIM],
        assumptions=["a process crash keeps what was written with write(2) before it"]),
    "C13": dict(
        campaigns=[dict(harness="pbstream", params=dict(read=1), quick=60000, quick_s=60, thorough_s=1200),
                   dict(harness="mapper", params=dict(damaged=1), quick=600, quick_s=20, thorough_s=300, limit=90)],
        real=["io/proto_stream.cc", "mapping/map_builder.cc (loading)", "io/serialization_format_migration.cc", "common/port.h (gzip)", "libstdc++ fstream", "boost iostreams", "zlib"],
        stub=["the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", SIM],
        assumptions=["damage does not by chance keep a message's CRC-32 intact", "allocations above 64 MB fail"]),
    "C14": dict(
        campaigns=[dict(harness="exporter", quick=40000, quick_s=60, thorough_s=1200)],
        real=["io/*points_processor*.cc", "io/file_writer.cc", "io/image.cc", "common/lua_parameter_dictionary.cc", "libstdc++ fstream", "cairo"],
        stub=["the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", SIM],
        assumptions=["multi-pass stages come before the writers, as the pipeline requires"]),
    "C15": dict(
        campaigns=[dict(harness="mapper", params=dict(migrate=1), quick=1500, quick_s=45, thorough_s=1200, limit=180)],
        real=["io/serialization_format_migration.cc", "io/internal/{pbstream_migrate,mapping_state_serialization}.cc", "io/{proto_stream,proto_stream_deserializer}.cc", "mapping/internal/3d/pose_graph_3d.cc, thread pool", "the SLAM stack that made the old map"],
        stub=["the robot and its sensors", "old files are current ones without submap histograms and with the old version number", "the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", SIM],
        assumptions=["trajectory numbers are consecutive (the tool requires it)", "no node was trimmed, so that the histograms can be recomputed"]),
    "C16": dict(
        campaigns=[dict(harness="connectivity", quick=30000, quick_s=60, thorough_s=1200)],
        real=["mapping/internal/trajectory_connectivity_state.cc", "mapping/internal/connected_components.cc"],
        stub=["absl::Mutex replaced by the simulator's primitives (same semantics)", SIM],
        assumptions=["sequentially consistent memory; missing ordering is reported as a race instead"]),
    "C17": dict(
        campaigns=[dict(harness="metricsim", quick=20000, quick_s=60, thorough_s=1200)],
        real=["cloud/metrics/prometheus/family_factory.cc", "cloud/metrics/prometheus/metrics_test.cc's public surface", "metrics/"],
        stub=[SIM],
        assumptions=["sequentially consistent memory; missing ordering is reported as a race instead"]),
    "C18": dict(
        campaigns=[dict(harness="localslam", params=dict(dim=2), quick=1200, quick_s=30, thorough_s=900, limit=90),
                   dict(harness="localslam", params=dict(dim=3), quick=1000, quick_s=30, thorough_s=900, limit=90),
                   dict(harness="localslam", params=dict(dim=2, pending=1), quick=24, quick_s=10, thorough_s=10, limit=90)],
        real=["mapping/map_builder.cc", "mapping/internal/{collated,global}_trajectory_builder.cc", "mapping/internal/{2d,3d}/local_trajectory_builder_*.cc", "mapping/{pose_extrapolator,imu_tracker}.cc", "mapping/internal/imu_based_pose_extrapolator.cc", "mapping/{2d,3d}/submap_*.cc", "sensor collators", "pose graph, thread pool", "scan matchers, voxel filters, range data inserters", "libceres (one thread per solve)"],
        stub=["the robot and its sensors", "ceres::LocalParameterization API on top of Ceres 2.2", SIM],
        assumptions=["stamps of one sensor do not go backwards (the collator requires it)", "IMU, odometry and fixed frame stamps do not repeat unless the pose graph's odometry filter drops the repetition (MapByTime requires it)", "the IMU measures gravity", "stamps leap by at most 5 s while moving"]),
    "C19": dict(
        campaigns=[dict(harness="cloud", params=dict(uplink=0), quick=12000, quick_s=60, thorough_s=1200, limit=60),
                   dict(harness="cloud", params=dict(uplink=0, loadcut=1), quick=64, quick_s=10, thorough_s=10, limit=60)],
        real=["cloud/internal/map_builder_server.cc, map_builder_context_impl.h", "all of cloud/internal/handlers", "cloud/client/map_builder_stub.cc, cloud/internal/client/*", "cloud/internal/sensor/serialization.cc", "common/internal/blocking_queue.h", "io/{proto_stream_deserializer,internal/in_memory_proto_stream}.cc"],
        stub=["gRPC and async_grpc (not installed): a simulated network with the same interface and threading", "the map builder and pose graph behind the service: recording fakes", "clients that vanish", SIM],
        assumptions=["async_grpc's documented behaviour: events of one call are handled in order by one event thread, OnReadsDone at the end of the requests or when the client is gone, OnFinish only after the server finished the call", "a client finishes its trajectory after its data has been processed"]),
    "C20": dict(
        campaigns=[dict(harness="cloud", params=dict(uplink=1), quick=5000, quick_s=80, thorough_s=1200, limit=60)],
        real=["cloud/internal/local_trajectory_uploader.cc", "cloud/internal/map_builder_server.cc and handlers", "cloud/internal/client/*", "cloud/internal/sensor/serialization.cc", "common/internal/blocking_queue.h"],
        stub=["gRPC and async_grpc (not installed): a simulated network with partitions, broken connections, delays and deadlines", "the uplink: a recording server that restarts", "the map builder behind the service: a recording fake", SIM],
        assumptions=["data still queued when a trajectory is finished or the service shut down may be lost", "after an outage with several trajectories only the one whose new submap ended the recovery is sure to start with a new submap"]),
    "C21": dict(
        campaigns=[dict(harness="cloudmap", params=dict(uplink=0), quick=500, quick_s=40, thorough_s=600, limit=240),
                   dict(harness="cloudmap", params=dict(uplink=1), quick=800, quick_s=80, thorough_s=1500, limit=240)],
        real=["mapping/map_builder.cc with local and global SLAM 2D and 3D, on both servers", "cloud/internal/* (server, handlers, uploader, client stubs)", "mapping/internal/submap_controller.cc, local_slam_result_{2d,3d}.cc", "sensor/*, collators", "libceres"],
        stub=["gRPC and async_grpc (not installed): a simulated network with partitions, broken connections, delays and deadlines", "the robots and their sensors", "the disk below remotely requested saves: in memory", "ceres::LocalParameterization API on top of Ceres 2.2", SIM],
        assumptions=["data still queued when a trajectory is finished or the service shut down may be lost", "trajectories are finished before their map builder is destroyed", "client stubs are not used without a server", "sequentially consistent memory; missing ordering is reported as a race instead"]),
    "C22": dict(
        campaigns=[dict(harness="gtauto", quick=12000, quick_s=25, thorough_s=600),
                   dict(harness="gtmetrics", quick=12000, quick_s=25, thorough_s=600)],
        real=["ground_truth/{autogenerate_ground_truth,autogenerate_ground_truth_main}.cc", "ground_truth/{compute_relations_metrics_main,relations_text_file}.cc, including their main()", "transform/transform_interpolation_buffer.cc", "io/{proto_stream,proto_stream_deserializer}.cc", "libstdc++ fstream, zlib, protobuf"],
        stub=["the saved map is generated, as the pose graph would write it", "the disk: open/read/write/lseek/close on /simdisk are in memory, with injected faults", "logging is listened to", SIM],
        assumptions=["the map has one trajectory", "no loop closure lies within 1e-7 of a threshold, or else either answer is accepted", "stamps of relations in text files are multiples of 1/8 s"]),
    "C23": dict(
        campaigns=[dict(harness="config", quick=60000, quick_s=40, thorough_s=900)],
        real=["common/{configuration_file_resolver,lua_parameter_dictionary,print_configuration_main}.cc, including main()", "the Lua interpreter", "libstdc++ fstream"],
        stub=["the disk: open/read/close on /simdisk are in memory, with injected faults; the installation's files are read from the real one", "standard output is captured", SIM],
        assumptions=["files are text without NUL characters; keys are identifiers", "a directory whose file cannot be opened counts as not having it", "numbers read as integers are integral"]),
}
NOT_APPLICABLE = {}
