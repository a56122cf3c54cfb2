"""The properties: text for properties.jsonl and MANIFEST.json."""
NOTE = ("Decides the property for all inputs and histories of the analysed entry points, over the type-checked MIR of the current tree; "
        "trusts rustc's MIR, the exporter, the interpreter's transfer functions and the boundary models of std/mio/HashMap/bincode calls listed in the evidence.")
ALL = []


def P(id, title, statement, over, forall, tests, files, mech, technique="", note=NOTE, na=None, observe=None):
    ALL.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech,
                    technique=technique, note=note, na=na, observe=observe))


COST = {"P03": 30, "P05": 31, "P06": 35, "P07": 30, "P09": 33, "P10": 38, "P11": 46, "P12": 40, "P13": 33, "P14": 29, "P15": 35, "P16": 30, "P17": 33, "P23": 29}
VF = "abstract interpretation of MIR (gated value-flow, joins and loop summaries)"

P("P01", "Every command request carries exactly the caller's values",
  "Every non-motion command of the robot and of the gripper sends exactly one request, unconditionally, whose bytes are the documented command number, a command id, the total length, and the caller's arguments unaltered, each in the wire position the Franka protocol gives it (documented defaults replace omitted arguments). "
  "The command id comes from one counter per connection that each command advances, so no two requests of a connection share an id.",
  ["inputs", "histories"], "for all argument values of every command, and every history of earlier commands on the connection",
  "The tests compare a few commands with hard-wired arguments through a mock server; most commands, most argument positions (for example the inertia tensor or the grasp tolerances) and the id counter over a history are never compared.",
  ["src/robot.rs", "src/robot/robot_impl.rs", "src/gripper.rs", "src/network.rs", "src/robot/service_types.rs", "src/gripper/types.rs"],
  [("request constructors", "src/robot/service_types.rs"), ("tcp_send_request", "src/network.rs"), ("create_header_for_*", "src/network.rs")],
  technique=VF + ": per-byte comparison of the serialised request with the argument symbols", observe=["TCP bytes of the command connection"])

P("P02", "A command reports exactly the verdict the robot sent for it",
  "A command returns success exactly if the response filed under that command's own id reports success, a command error if it reports any other status (the gripper's 'unsuccessful' is Ok(false)), and a network error only for reasons that do not depend on the status. "
  "An error for a user stop, a reflex, a required manual recovery or an invalid argument says so and no other error claims one of these, and data returned with a success (the virtual wall) is the data of that response.",
  ["inputs", "histories", "schedules"], "for all statuses the protocol defines, all commands, and every order in which responses arrive",
  "The tests feed only the success status, and one response at a time.",
  ["src/robot.rs", "src/robot/robot_impl.rs", "src/gripper.rs", "src/network.rs", "src/robot/service_types.rs"],
  [("handle_command_*_status", "src/robot.rs"), ("tcp_blocking_receive_response", "src/network.rs"), ("handle_response_status", "src/gripper.rs")],
  technique=VF + ": outcome conditions compared with the protocol's status table; provenance of the decoded response", observe=["return value of every command"])

P("P04", "Connecting negotiates the version and hands out a usable connection",
  "Connecting opens one TCP connection to the given address on the device's port and sends one connect request with this library's interface version and the UDP port of the socket that will receive the states. "
  "A connection object is returned exactly if the device's own connect response reports success (and, for the robot, a first state datagram arrived), reports the server's version, and keeps the given realtime and log settings or their documented defaults; a refusal is returned as an incompatible-version error naming both versions, anything else that fails as a network error.",
  ["inputs", "histories"], "for all addresses, option values, server versions and connect replies",
  "The tests connect to a mock server with a matching version on localhost only; defaults, the announced port and the reported versions are not compared.",
  ["src/robot.rs", "src/robot/robot_impl.rs", "src/gripper.rs", "src/network.rs"],
  [("Robot::new", "src/robot.rs"), ("RobotImplementation::new / connect_robot", "src/robot/robot_impl.rs"), ("Gripper::new / connect_gripper", "src/gripper.rs"), ("Network::new", "src/network.rs")],
  technique=VF + ": bytes of the connect request, outcome conditions and provenance of the fields of the returned object", observe=["TCP bytes", "return value of Robot::new and Gripper::new"])

P("P19", "A model query evaluates the matching library function on the right data",
  "Every query of the dynamics model (pose, body and zero Jacobian for each of the ten frames, mass matrix, Coriolis and gravity vector, each also in the variant that takes a robot state) calls exactly the model-library function of that name once, with the caller's arguments or the named fields of the given state in the function's argument order, and returns its output unaltered. "
  "For end-effector and stiffness frames the transforms passed are the given ones (for the stiffness frame their product), omitted gravity defaults to -9.81 along z or to the base acceleration of the state, and the model is handed out only if every function was found in the given library.",
  ["inputs"], "for all joint positions, transforms, inertias, gravity vectors, states and frames",
  "The tests contain no model library; no model query is executed by any of them.",
  ["src/model.rs", "src/model/model_library.rs", "src/model/library_downloader.rs"],
  [("Model::{pose,body_jacobian,zero_jacobian,mass,coriolis,gravity}", "src/model.rs"), ("ModelLibrary::new", "src/model/model_library.rs")],
  technique=VF + ": symbol table of the loaded library against the function pointer called, per-argument value flow", observe=["calls into the model library", "return value of the query"])

P("P03", "A robot state is one received datagram, decoded field by field",
  "Every robot state the user is given (returned by a single read, or passed to any read, motion or torque callback) holds, in every field, the value at the wire position the Franka protocol gives that field, and all fields stem from one and the same received datagram. "
  "The total mass, centre of mass and inertia combine end effector and load by the parallel-axis theorem, the time stamp is the message id in milliseconds, and the two error lists contain exactly the errors whose flag is set.",
  ["inputs", "histories"], "for all datagram contents and every sequence of datagrams received before",
  "The tests check one sample of the centre-of-mass formula and one of the inertia formula; no test compares the other fields, the error lists or which datagram they stem from.",
  ["src/robot/robot_state.rs", "src/robot/types.rs", "src/robot/errors.rs", "src/robot/robot_impl.rs", "src/robot/control_loop.rs"],
  [("From<RobotStateIntern> for RobotState", "src/robot/robot_state.rs"), ("FrankaErrors::new", "src/robot/errors.rs"), ("receive_robot_state", "src/robot/robot_impl.rs")],
  technique=VF + ": datagram provenance by induction over the receive loops, value numbering of computed fields, partial evaluation of the flag conversion", observe=["returned robot states", "arguments of callbacks"])

P("P05", "States are used in strictly increasing order and commands answer the newest",
  "Every robot state that is handed out or answered has a strictly larger message id than every state used before on that connection and is the newest of the datagrams waiting in the socket, however datagrams are delayed, duplicated or reordered; a single read returns a state that arrived after the call. "
  "Every motion command carries the message id of the very state it was computed from and goes to the address the states come from; no other operation changes the remembered id.",
  ["histories", "schedules", "inputs"], "for all sequences of datagrams (including stale, duplicated and reordered ones) and all interleavings of reads, commands and motions",
  "The tests send datagrams in increasing order over a loopback socket, never a stale or duplicated one.",
  ["src/robot/robot_impl.rs", "src/network.rs", "src/robot/control_loop.rs"],
  [("receive_robot_state / update_state_with", "src/robot/robot_impl.rs"), ("send_robot_command", "src/robot/robot_impl.rs"), ("udp_receive / udp_blocking_receive", "src/network.rs")],
  technique=VF + ": inductive proof over loop-carried datagram signatures", observe=["returned robot states", "UDP datagrams sent"])

P("P06", "Responses are reassembled whole however the TCP stream is cut",
  "However the byte stream of the command connection is cut into pieces, every response is delivered exactly once, complete, under the id in its header, and consisting of exactly its own bytes: a response in many pieces is put together, several responses in one piece are separated. "
  "Only bytes that have arrived are taken, so looking for a response never waits for the rest of one, and no command loses the part of a response, or a whole response, that arrived before it.",
  ["inputs", "schedules", "histories"], "for all contents, lengths and numbers of responses, all ways of cutting the stream into segments and all times of their arrival",
  "The mock server of the tests writes every response at once and sends the next one only after the next request.",
  ["src/network.rs"],
  [("tcp_read_from_buffer", "src/network.rs"), ("wait_for_response_to_arrive / tcp_receive_response", "src/network.rs")],
  technique=VF + ": the loop summary evaluated over an abstract stream (linear forms, ranges of a message)", observe=["return values of commands", "TCP bytes received"])

P("P08", "Setting the default behaviour applies all three documented defaults",
  "Setting the default behaviour sends, in this order, the documented default collision thresholds, joint impedance and Cartesian impedance, each under its own id and only after the robot accepted the one before. "
  "It returns success exactly if all three were accepted; the first refusal is returned as a command error and nothing is sent after it.",
  ["inputs", "histories"], "for all replies of the robot to the three requests",
  "The test checks that the three requests arrive when all are accepted; no test refuses one.",
  ["src/robot.rs", "src/network.rs"],
  [("Robot::set_default_behavior", "src/robot.rs")],
  technique=VF + ": bytes of the three requests, send conditions and outcome conditions over the three statuses", observe=["TCP bytes", "return value"])

P("P21", "The read loop delivers every state until the callback declines",
  "Reading states calls the given callback once for every accepted state, continues exactly as long as the callback returns true, and returns success right after it returned false. "
  "It sends nothing to the robot, and ends with an error only because of the network, never because of what the callback answered.",
  ["inputs", "histories"], "for all callback behaviours and sequences of received states",
  "The test reads a fixed number of states from a well-behaved server.",
  ["src/robot.rs", "src/robot/robot_impl.rs"],
  [("Robot::read", "src/robot.rs")],
  technique=VF + ": back-edge and exit conditions of the summarised loop", observe=["callback invocations", "return value", "network traffic"])

P("P22", "Gripper states and setpoint values mean what their constructors say",
  "A gripper state holds in every field the value at that field's wire position of one datagram that arrived after the call, with the message id in milliseconds as time stamp, or the read fails with a network error. "
  "A setpoint holds exactly the values (and the elbow, if one was given) it was created from and is not the last of a motion; marking it finished changes nothing but that; an elbow configuration is valid exactly if its sign is +1 or -1.",
  ["inputs", "histories"], "for all datagram contents, queued datagrams, setpoint values and elbows",
  "The gripper test checks one sample; setpoint constructors are not compared by any test.",
  ["src/gripper.rs", "src/gripper/gripper_state.rs", "src/robot/control_types.rs", "src/network.rs"],
  [("Gripper::read_once", "src/gripper.rs"), ("From<GripperStateIntern> for GripperState", "src/gripper/gripper_state.rs"), ("Torques/JointPositions/JointVelocities/CartesianPose/CartesianVelocities::new, motion_finished", "src/robot/control_types.rs")],
  technique=VF + ": field-by-field value flow", observe=["returned values"])

P("P10", "Without rate limiting the robot is commanded exactly the filtered setpoint",
  "With rate limiting switched off, every command sent in a motion or torque control loop contains, for the quantity the callback controls, exactly the setpoint the callback returned for that cycle, or, if the cut-off frequency (100 Hz if none is given) is below 1000 Hz, its first-order low-pass with the robot's last commanded value at that cut-off frequency. "
  "The elbow is treated alike except for its sign, torques follow the same rule, and the command that ends the motion repeats the content of the last setpoint.",
  ["inputs", "histories"], "for all setpoints, elbows, states, cut-off frequencies and both ways of giving them, in every control function",
  "The tests run a control loop with a single filtered setpoint kind and sample the low-pass at a few values; which state field is the reference, which axis, and the finishing command are not compared.",
  ["src/robot/control_types.rs", "src/robot/control_loop.rs", "src/robot/low_pass_filter.rs", "src/robot/robot_impl.rs", "src/robot.rs"],
  [("convert_motion", "src/robot/control_types.rs"), ("low_pass_filter", "src/robot/low_pass_filter.rs"), ("ControlLoop::spin_motion / spin_control", "src/robot/control_loop.rs")],
  technique=VF + ": value numbering (random interpretation over a prime field) of every command component against the documented formula", observe=["UDP datagrams sent"])

P("P11", "Rate limiting bounds every commanded quantity by the documented limits",
  "With rate limiting switched on (the default), every commanded joint position and velocity, Cartesian velocity, translation, elbow angle and torque is the (filtered) setpoint clamped so that velocity, acceleration and jerk relative to the robot's last commanded values stay within the limits documented for that axis; a setpoint within the limits passes unchanged. "
  "The same holds for the torques, whose change per cycle is limited, and for the command that ends the motion.",
  ["inputs", "histories"], "for all setpoints, states and limits hit or not hit, per axis, in every control function",
  "The tests sample the limiter functions at single values; that each control function applies the right limiter with the right limits and the right references is not tested.",
  ["src/robot/rate_limiting.rs", "src/robot/control_types.rs", "src/robot/control_loop.rs", "src/robot.rs"],
  [("limit_rate_*", "src/robot/rate_limiting.rs"), ("convert_motion", "src/robot/control_types.rs"), ("ControlLoop::convert_torque / spin_control", "src/robot/control_loop.rs")],
  technique=VF + ": value numbering (random interpretation over a prime field, min/max/clamp normal forms) of every command component against the documented limiter", observe=["UDP datagrams sent"])

P("P09", "No invalid command ever leaves the host",
  "Every command datagram sent in any motion or torque control function has only finite values in the quantities the callbacks control; a commanded pose is a homogeneous transformation (last row 0 0 0 1, rows and columns of the rotation of unit length within 1e-5), and a commanded elbow has a finite angle and a sign of +1 or -1. "
  "This holds for what is sent after filtering and rate limiting, for every setpoint a callback may return and every state received, and for the command that ends the motion.",
  ["inputs", "histories"], "for all setpoints a callback may return (NaN, infinities, non-orthogonal matrices included), all states and all option values",
  "No test returns an invalid setpoint from a callback; the validity functions are sampled in isolation at most.",
  ["src/robot/control_types.rs", "src/robot/control_loop.rs", "src/robot/motion_generator_traits.rs", "src/robot/robot_impl.rs"],
  [("convert_motion / check_* / is_homogeneous_transformation", "src/robot/control_types.rs"), ("ControlLoop::convert_torque", "src/robot/control_loop.rs")],
  technique=VF + ": path-condition implication at every send, values identified by value number", observe=["UDP datagrams sent"])

P("P17", "A command holds the callback's interface and nothing else",
  "In every command datagram, the fields of interfaces the callbacks of that control function do not control are zero, the elbow is marked valid exactly if the setpoint has one, and is zero otherwise. "
  "The finished flag is set in the commands that end a motion and in no other.",
  ["inputs", "histories"], "for all setpoints, states, options and cycles, in every control function",
  "No test decodes a command of a motion beyond one field.",
  ["src/robot/control_types.rs", "src/robot/control_loop.rs", "src/robot/robot_impl.rs", "src/robot/types.rs"],
  [("send_robot_command", "src/robot/robot_impl.rs"), ("convert_motion", "src/robot/control_types.rs"), ("finish_motion", "src/robot/robot_impl.rs")],
  technique=VF + ": per-field value flow into the serialised command", observe=["UDP datagrams sent"])

P("P12", "A motion is started only when possible, and drives only what was asked for",
  "Every control function sends exactly one motion request, for the motion generator and controller it stands for (or the caller chose), and only if the newest state reports no running motion and, with realtime enforced, the realtime kernel and scheduling checks succeeded; otherwise it reports the failure without sending anything. "
  "Callbacks are called only after the robot accepted that request and only while the states report that motion as running; a refused request is returned as a command error and followed by no callback and no datagram. "
  "Having accepted it, the robot is given the time it takes until a state reports the requested motion, unless it sends a further verdict or the network fails.",
  ["inputs", "histories", "schedules"], "for all options, remembered states, replies to the motion request, and orders of states and replies",
  "The tests start one or two kinds of motion on an idle, accepting mock server; refusals, a robot already moving, the realtime checks and states of other modes are not tried.",
  ["src/robot.rs", "src/robot/control_loop.rs", "src/robot/robot_impl.rs", "src/network.rs"],
  [("ControlLoop::new_intern", "src/robot/control_loop.rs"), ("start_motion", "src/robot/robot_impl.rs"), ("throw_on_motion_error", "src/robot/robot_impl.rs"), ("set_current_thread_to_highest_scheduler_priority", "src/robot/control_tools.rs")],
  technique=VF + ": request bytes, send conditions, and an inductive invariant of the control loop over the modes of the datagram of each round", observe=["TCP bytes", "callback invocations", "return value of control functions"])

P("P13", "A motion succeeds only when the robot finished it",
  "A control function returns success only after a callback marked its setpoint as the last one, a later state reported that no motion and no external controller is running any more, and the robot's own response to this motion's request, taken after that, says the motion was finished; any other verdict in that response is returned as a control error. "
  "After the last setpoint no callback is called again and only finishing commands are sent, until that state arrives.",
  ["inputs", "histories", "schedules"], "for all sequences of setpoints, states and responses",
  "The tests end a motion once, with a well-behaved mock server.",
  ["src/robot/control_loop.rs", "src/robot/robot_impl.rs", "src/network.rs"],
  [("finish_motion", "src/robot/robot_impl.rs"), ("ControlLoop::do_loop", "src/robot/control_loop.rs")],
  technique=VF + ": condition of success against the finished flags, the modes of the newest datagram and the status of the final response", observe=["return value of control functions", "UDP and TCP bytes sent"])

P("P14", "A failed motion is stopped once and reported as what it was",
  "Whenever a control function fails after its first callback, for whatever reason, it sends exactly one stop request before it returns, no callback or command follows, and the error returned is the one that ended the motion, unaffected by what happens while stopping; a motion that succeeds is never stopped. "
  "A control error's text states the robot's own verdict on this motion and claims no other cause, and after a reflex lists the errors of the state in which the motion ended.",
  ["inputs", "histories", "schedules"], "for all errors, points in the motion at which they happen, and outcomes of the stop request",
  "No test lets a motion fail.",
  ["src/robot/control_loop.rs", "src/robot/robot_impl.rs", "src/network.rs", "src/exception.rs"],
  [("ControlLoop::run", "src/robot/control_loop.rs"), ("cancel_motion", "src/robot/robot_impl.rs"), ("throw_on_motion_error / create_control_exception", "src/robot/robot_impl.rs")],
  technique=VF + ": condition of the stop request against the condition of every error, provenance of the returned error, texts per status", observe=["TCP bytes", "return value of control functions"])

P("P15", "The log of a control error holds the motion's last commands",
  "Every control error that ends a motion in progress carries a log with one record for each of the most recent commands sent in this motion, as many as the configured log size allows, oldest first; nothing of an earlier motion is in it. "
  "Each record holds the commanded values exactly as they were sent and the state received next after sending them.",
  ["inputs", "histories", "schedules"], "for all log sizes, numbers of cycles, commands and states, and every history of earlier motions",
  "The tests never look at a log.",
  ["src/robot/logger.rs", "src/robot/robot_impl.rs", "src/robot/control_loop.rs"],
  [("Logger::log / Logger::flush", "src/robot/logger.rs"), ("update / start_motion / throw_on_motion_error", "src/robot/robot_impl.rs")],
  technique=VF + ": queue lengths and entry counter by induction over the control loop, provenance of every logged value and of every field of a record", observe=["log of the control error returned by control functions"])

P("P16", "Each cycle calls each callback once and sends one command",
  "In every cycle of a control loop each given callback is called exactly once, the motion callback first, and then exactly one command is sent; the torque callback is not called any more once the motion callback gave its last setpoint. "
  "Both callbacks get the same state, and as time step the difference between the time stamps of this state and of the state of the cycle before, zero in the first cycle.",
  ["inputs", "histories", "schedules"], "for all setpoints and sequences of states, lost states included",
  "The tests do not look at the time step, nor count the calls and commands per state.",
  ["src/robot/control_loop.rs", "src/robot/robot_impl.rs"],
  [("ControlLoop::do_loop / spin_motion / spin_control", "src/robot/control_loop.rs")],
  technique=VF + ": back-edge condition against the conditions of calls and sends; loop-carried datagram signatures for the time step", observe=["callback invocations and arguments", "UDP datagrams sent"])

P("P07", "A failure of the network is reported and never waited out",
  "If the command connection fails or is closed by the peer, connecting and every command return a network error: they report neither success nor another error, do not panic and do not wait any longer; a network error is returned for no other reason. "
  "Reading states returns a network error if no state arrives before a timeout, or if a datagram of another length arrives where a state is awaited, and waits on only if it received something; a motion command that is not sent completely ends the motion.",
  ["inputs", "histories", "schedules"], "for all operating-system results of every network operation, at any point of any sequence of messages",
  "No test closes the connection, lets an operation fail, or withholds states.",
  ["src/network.rs", "src/robot/robot_impl.rs", "src/robot.rs", "src/gripper.rs"],
  [("tcp_send_request / tcp_read_from_buffer / wait_for_response_to_arrive", "src/network.rs"), ("udp_blocking_receive / udp_receive / udp_send", "src/network.rs"), ("receive_robot_state", "src/robot/robot_impl.rs")],
  technique=VF + ": the condition of every failing network operation against the conditions of success, of other errors, of panics and of another round of each enclosing loop", observe=["return value of every operation", "termination"])

P("P20", "Loading the model stores a complete library, exactly when asked to",
  "Loading the model requests the library for this machine (x86-64 Linux) from the robot exactly if none is stored yet, writes all the library's bytes of that request's own successful response, and nothing else, to the model file before it loads the library from there; a library stored before is loaded as it is and never overwritten. "
  "A refused download, a file that cannot be written and a library that cannot be loaded are each returned as a model error and none of them yields a model; after success the file remains exactly if the caller asked for a persistent one.",
  ["inputs", "histories"], "for all responses, library contents and lengths, results of every file and library operation, and both choices of persistence",
  "No test downloads or loads a model.",
  ["src/robot.rs", "src/robot/robot_impl.rs", "src/model/library_downloader.rs", "src/network.rs", "src/model.rs"],
  [("RobotImplementation::load_model", "src/robot/robot_impl.rs"), ("LibraryDownloader::download", "src/model/library_downloader.rs"), ("tcp_blocking_receive_load_library_response", "src/network.rs")],
  technique=VF + ": conditions and order of the file, library and network operations, provenance and range of the bytes written", observe=["file system operations", "TCP bytes", "return value of load_model"])

P("P18", "The public filters and pose conversion compute their documented formula",
  "The low-pass filter returns gain*y + (1-gain)*y_last with gain = T/(T + 1/(2*pi*cutoff)) for every valid input, and panics exactly if a signal value is not finite, the cutoff frequency is not a finite positive number, or the sample time is negative or not finite; the Cartesian filter does so for the translation, interpolates the rotation spherically with the same gain, and checks all elements of both matrices. "
  "Converting a column-major matrix to a pose takes its translation and rotation as they are and never fails.",
  ["inputs"], "for all signals, sample times, cutoff frequencies and matrices",
  "The tests compare six values of the scalar filter, one pose of the Cartesian filter and one matrix; no invalid input is tried.",
  ["src/robot/low_pass_filter.rs", "src/utils.rs"],
  [("low_pass_filter / cartesian_low_pass_filter", "src/robot/low_pass_filter.rs"), ("array_to_isometry", "src/utils.rs")],
  technique=VF + ": value numbering over the reals against the documented formula, partial evaluation of the return condition per class of argument values", observe=["return values and panics of the filter functions and of array_to_isometry"])

P("P23", "Point-to-point joint motions follow the synchronised trajectory",
  "The motion generator's setpoints start at the desired joint positions of the state of the first call, follow the synchronised trajectory (documented maximal velocities and accelerations scaled by the speed factor, all joints arriving together, joints within 1e-6 of the goal not moving) at the sum of the periods given so far, end at the goal, and are marked as the last exactly if every joint arrived. "
  "A joint motion commands exactly these setpoints, rate-limited and unfiltered, with the given speed factor and goal.",
  ["inputs", "histories"], "for all goals, speed factors, states and sequences of periods",
  "The tests sample one motion in which all joints move alike, at a few times.",
  ["src/utils.rs", "src/robot.rs"],
  [("MotionGenerator::{new,generate_motion}", "src/utils.rs"), ("Robot::joint_motion", "src/robot.rs")],
  technique=VF + ": value numbering of the setpoints against a reference trajectory under outcomes of all comparisons, one inductive step over the generator's state", observe=["return values of the motion generator", "UDP datagrams sent by joint_motion"])
