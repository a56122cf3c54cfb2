From 0d9dcd82c7214500e1f6c4a23d5c6b19c4bd905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 01/12] fix: keep the control log in chronological order and
 drop entries of earlier motions

The deques are already ordered from the oldest to the newest entry, so the
ring index rotated a full log. flush() did not remove the flushed entries,
and a log size of zero divided by zero.
---
 src/robot/logger.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..c19d6ce 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,7 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
     ring_size: usize,
     log_size: usize,
 }
@@ -59,7 +58,6 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
             ring_size: 0,
             log_size,
         }
@@ -67,7 +65,6 @@ impl Logger {
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
         if self.ring_size == self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
@@ -77,8 +74,7 @@ impl Logger {
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
         for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+            let cmd = self.commands.get(i).unwrap();
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -87,12 +83,13 @@ impl Logger {
                 torques: Torques::new(cmd.control.tau_J_d),
             };
             let record = Record {
-                state: self.states.get(index).unwrap().clone(),
+                state: self.states.get(i).unwrap().clone(),
                 command,
             };
             out.push(record);
         }
-        self.ring_front = 0;
+        self.states.clear();
+        self.commands.clear();
         self.ring_size = 0;
         out
     }
-- 
2.43.0


From 51047985256e228d4718120f6b43aba0d783824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 02/12] fix: coriolis_from_state has to use the inertia of the
 total load

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From c701d7b8e8c6c0aac110a1dd4e8c2443fb5715aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 03/12] fix: write the complete model library to disk

---
 src/model/library_downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..f72ec1c 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -37,7 +37,7 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
+            file.write_all(&buffer).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
             Ok(())
-- 
2.43.0


From ac386b4e81ef53f95b71d70853533a6c142eeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 04/12] fix: Robot::new returns an error if no robot state
 arrives instead of panicking

---
 src/robot/robot_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..9edbc72 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From f73389e47557d4e85e2ebd445fafc74c5f8c5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 05/12] fix: low pass filters panic on a cutoff frequency of
 zero as documented

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From 3c3c3fb87b3289a83e492cc2b9ad6e096592214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 06/12] fix: close the bracket when formatting an empty list of
 errors

---
 src/robot/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..c6ece15 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -60,6 +60,6 @@ impl fmt::Display for FrankaErrors {
                 }
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 358841571e33fd7f287910bca740cbee437431d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:10 +0000
Subject: [PATCH 07/12] fix: a non persistent load_model does not leave the
 downloaded library behind

The library was only deleted if it had already been there before the call.
---
 src/robot/robot_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 9edbc72..99b7edd 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -236,7 +236,7 @@ impl RobotImpl {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
         let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
         Ok(model)
-- 
2.43.0


From 2600a777af7e191f4cced94eff7225fdaa99e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:10 +0000
Subject: [PATCH 08/12] fix: take length and sender from the datagram that is
 decoded

udp_blocking_receive drains the socket into one buffer and decodes the last
datagram, but it checked the length and kept the sender of the first one.
---
 src/network.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..ea5b0d2 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -271,8 +271,10 @@ impl Network {
                 CLIENT => {
                     if event.is_readable() {
                         let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
+                        let mut read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
+                        while let Ok(latest) = self.udp_socket.recv_from(&mut buffer) {
+                            read_bytes_and_address = Ok(latest);
+                        }
                         let read_bytes = match read_bytes_and_address {
                             Ok(res) => {
                                 self.udp_server_address = res.1;
-- 
2.43.0


From 55ae1df162a1a52d29cdcfd9b2a1fce56a092763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:10 +0000
Subject: [PATCH 09/12] fix: an address which cannot be resolved is an error
 and not a panic

---
 src/network.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ea5b0d2..a11c5d7 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -69,7 +69,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("libfranka-rs: Could not resolve the address")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
-- 
2.43.0


From f77b5d025f1e084d70bd4b97a4fea010ce6bce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:31 +0000
Subject: [PATCH 10/12] fix: reassemble TCP responses for any segmentation of
 the stream

The header bytes were counted twice, so a response that was split within its
body panicked, and a second response in the same segment was never read
because the readiness events are edge triggered.
---
 src/network.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index a11c5d7..b60ac1a 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -330,7 +330,7 @@ impl Network {
                     if event.is_readable() {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
+                        let mut available_bytes = match available_bytes {
                             Ok(a) => a,
                             Err(e) => {
                                 eprintln!("{}", e);
@@ -348,6 +348,7 @@ impl Network {
                                 self.tcp_socket.read_exact(&mut header_bytes).unwrap();
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
+                                available_bytes -= header_mem_size;
                                 match self.network_type {
                                     NetworkType::Gripper => {
                                         let header: CommandHeader = deserialize(&header_bytes);
@@ -380,6 +381,11 @@ impl Network {
                                 self.pending_response_len = 0;
                             }
                         }
+                        // The events are edge triggered: ask again for the bytes which are left.
+                        self.poll_read
+                            .registry()
+                            .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+                            .unwrap();
                     }
                     if event.is_writable() {
                         eprintln!("There should not be any writable events")
-- 
2.43.0


From 1ffe5ad4435cc10f8e2d4989d7bfd378d9570e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:53 +0000
Subject: [PATCH 11/12] fix: a lost TCP connection is reported as
 NetworkException

Requests and responses panicked on socket errors, and waiting for a response
never ended after the peer had closed the connection.
---
 src/gripper.rs                  | 20 ++++++------
 src/model/library_downloader.rs |  2 +-
 src/network.rs                  | 56 ++++++++++++++++++++-------------
 src/robot.rs                    | 44 +++++++++++++-------------
 src/robot/robot_impl.rs         | 20 ++++++------
 5 files changed, 76 insertions(+), 66 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index f72ec1c..3e8c971 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index b60ac1a..0fe4290 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,7 +8,7 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -144,10 +144,12 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(network_exception)?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -157,9 +159,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -177,7 +179,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -219,7 +221,7 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        self.tcp_read_from_buffer(Duration::from_micros(0))?;
         let message = self.received_responses.get(&command_id);
         if message.is_none() {
             return Ok(false);
@@ -238,16 +240,16 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
         let mut response_bytes: Option<Vec<u8>> = None;
         while response_bytes == None {
             {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
+                self.tcp_read_from_buffer(Duration::from_millis(10))?;
                 response_bytes = self.received_responses.remove(command_id);
             }
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
+        Ok(response_bytes.unwrap())
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -268,7 +270,7 @@ impl Network {
     ) -> FrankaResult<T> {
         self.poll_read_udp
             .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
+            .map_err(network_exception)?;
         for event in self.events_udp.iter() {
             match event.token() {
                 CLIENT => {
@@ -320,10 +322,10 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
         self.poll_read
             .poll(&mut self.events, Some(timeout))
-            .unwrap();
+            .map_err(network_exception)?;
         for event in self.events.iter() {
             match event.token() {
                 CLIENT => {
@@ -331,11 +333,10 @@ impl Network {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
                         let mut available_bytes = match available_bytes {
+                            Ok(0) => return Err(network_exception("connection closed by peer")),
                             Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
+                            Err(e) if e.kind() == ErrorKind::WouldBlock => return Ok(()),
+                            Err(e) => return Err(network_exception(e)),
                         };
 
                         if self.pending_response.is_empty() {
@@ -345,7 +346,9 @@ impl Network {
                             };
                             if available_bytes >= header_mem_size {
                                 let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
+                                self.tcp_socket
+                                    .read_exact(&mut header_bytes)
+                                    .map_err(network_exception)?;
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
                                 available_bytes -= header_mem_size;
@@ -369,7 +372,9 @@ impl Network {
                                 self.pending_response_len - self.pending_response_offset as usize,
                             );
                             let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
+                            self.tcp_socket
+                                .read_exact(&mut response_buffer)
+                                .map_err(network_exception)?;
                             self.pending_response.append(&mut response_buffer);
                             self.pending_response_offset += number_of_bytes_to_read;
                             if self.pending_response_offset == self.pending_response_len as usize {
@@ -385,7 +390,7 @@ impl Network {
                         self.poll_read
                             .registry()
                             .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
-                            .unwrap();
+                            .map_err(network_exception)?;
                     }
                     if event.is_writable() {
                         eprintln!("There should not be any writable events")
@@ -394,12 +399,19 @@ impl Network {
                 _ => unreachable!(),
             }
         }
+        Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
 }
 
+fn network_exception<E: ToString>(error: E) -> FrankaException {
+    FrankaException::NetworkException {
+        message: error.to_string(),
+    }
+}
+
 fn serialize<T: Serialize>(s: &T) -> Vec<u8> {
     bincode::serialize(s).unwrap()
 }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 99b7edd..9f0d815 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -124,9 +124,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -263,8 +263,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -275,8 +275,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -329,9 +329,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -364,7 +362,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -438,7 +436,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From 3e10d1960e04e28d13fc867ef5e0bb1e65ee85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:55 +0000
Subject: [PATCH 12/12] fix: cancelling a motion keeps the original error and
 ends without a network

cancel_motion panicked if the Stop command was not successful, which hid the
error of the motion, and it looped forever when no robot state arrived.
---
 src/robot/robot_impl.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 9f0d815..f0a0931 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -392,20 +392,21 @@ impl RobotControl for RobotImpl {
 
     // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // The caller reports the error which led to the cancellation, not an error of the Stop.
+        let _ = self.execute_stop_command();
+        let mut robot_state = self.receive_robot_state();
+        while robot_state.is_ok() && (self.motion_generator_running() || self.controller_running())
+        {
+            robot_state = self.receive_robot_state();
         }
 
         // comment from libfranka devs:
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
-- 
2.43.0

