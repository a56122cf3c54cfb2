//! Analysis roots.  This crate is never run: it instantiates the public API of the library under
//! analysis with plain fn pointers as user callbacks, so that the compiler produces the monomorphic
//! MIR of everything a user program can reach.  One function per public entry point.
#![allow(non_snake_case, deprecated)]
use franka::exception::FrankaException;
use franka::robot::errors::FrankaErrors;
use franka::robot::low_pass_filter::{cartesian_low_pass_filter, low_pass_filter};
use franka::robot::virtual_wall_cuboid::VirtualWallCuboid;
use franka::*;
use std::path::Path;
use std::time::Duration;

type Cb<T> = fn(&RobotState, &Duration) -> T;

// ---- Robot -------------------------------------------------------------------------------
pub fn robot_new(addr: &str, rt: Option<RealtimeConfig>, log: Option<usize>) -> FrankaResult<Robot> {
    Robot::new(addr, rt, log)
}
pub fn robot_read(r: &mut Robot, cb: fn(&RobotState) -> bool) -> FrankaResult<()> {
    r.read(cb)
}
pub fn robot_read_once(r: &mut Robot) -> FrankaResult<RobotState> {
    r.read_once()
}
pub fn robot_server_version(r: &Robot) -> u16 {
    r.server_version()
}
pub fn robot_set_collision_behavior(
    r: &mut Robot,
    a: [f64; 7],
    b: [f64; 7],
    c: [f64; 7],
    d: [f64; 7],
    e: [f64; 6],
    f: [f64; 6],
    g: [f64; 6],
    h: [f64; 6],
) -> FrankaResult<()> {
    r.set_collision_behavior(a, b, c, d, e, f, g, h)
}
pub fn robot_set_joint_impedance(r: &mut Robot, k: [f64; 7]) -> FrankaResult<()> {
    r.set_joint_impedance(k)
}
pub fn robot_set_cartesian_impedance(r: &mut Robot, k: [f64; 6]) -> FrankaResult<()> {
    r.set_cartesian_impedance(k)
}
pub fn robot_set_guiding_mode(r: &mut Robot, g: [bool; 6], elbow: bool) -> FrankaResult<()> {
    r.set_guiding_mode(g, elbow)
}
pub fn robot_set_K(r: &mut Robot, m: [f64; 16]) -> FrankaResult<()> {
    r.set_K(m)
}
pub fn robot_set_EE(r: &mut Robot, m: [f64; 16]) -> FrankaResult<()> {
    r.set_EE(m)
}
pub fn robot_set_load(r: &mut Robot, m: f64, x: [f64; 3], i: [f64; 9]) -> FrankaResult<()> {
    r.set_load(m, x, i)
}
pub fn robot_set_filters(r: &mut Robot, a: f64, b: f64, c: f64, d: f64, e: f64) -> FrankaResult<()> {
    r.set_filters(a, b, c, d, e)
}
pub fn robot_automatic_error_recovery(r: &mut Robot) -> FrankaResult<()> {
    r.automatic_error_recovery()
}
pub fn robot_stop(r: &mut Robot) -> FrankaResult<()> {
    r.stop()
}
pub fn robot_get_virtual_wall(r: &mut Robot, id: i32) -> FrankaResult<VirtualWallCuboid> {
    r.get_virtual_wall(id)
}
pub fn robot_set_default_behavior(r: &mut Robot) -> FrankaResult<()> {
    r.set_default_behavior()
}
pub fn robot_joint_motion(r: &mut Robot, speed: f64, goal: &[f64; 7]) -> FrankaResult<()> {
    r.joint_motion(speed, goal)
}
pub fn robot_load_model(r: &mut Robot, persistent: bool) -> FrankaResult<Model> {
    r.load_model(persistent)
}

// ---- control loops -----------------------------------------------------------------------
pub fn control_joint_positions(
    r: &mut Robot,
    cb: Cb<JointPositions>,
    cm: Option<ControllerMode>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_joint_positions(cb, cm, l, cf)
}
pub fn control_joint_velocities(
    r: &mut Robot,
    cb: Cb<JointVelocities>,
    cm: Option<ControllerMode>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_joint_velocities(cb, cm, l, cf)
}
pub fn control_cartesian_pose(
    r: &mut Robot,
    cb: Cb<CartesianPose>,
    cm: Option<ControllerMode>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_cartesian_pose(cb, cm, l, cf)
}
pub fn control_cartesian_velocities(
    r: &mut Robot,
    cb: Cb<CartesianVelocities>,
    cm: Option<ControllerMode>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_cartesian_velocities(cb, cm, l, cf)
}
pub fn control_torques(r: &mut Robot, t: Cb<Torques>, l: Option<bool>, cf: Option<f64>) -> FrankaResult<()> {
    r.control_torques(t, l, cf)
}
pub fn control_torques_and_joint_positions(
    r: &mut Robot,
    t: Cb<Torques>,
    cb: Cb<JointPositions>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_torques_and_joint_positions(t, cb, l, cf)
}
pub fn control_torques_and_joint_velocities(
    r: &mut Robot,
    t: Cb<Torques>,
    cb: Cb<JointVelocities>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_torques_and_joint_velocities(t, cb, l, cf)
}
pub fn control_torques_and_cartesian_pose(
    r: &mut Robot,
    t: Cb<Torques>,
    cb: Cb<CartesianPose>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_torques_and_cartesian_pose(t, cb, l, cf)
}
pub fn control_torques_and_cartesian_velocities(
    r: &mut Robot,
    t: Cb<Torques>,
    cb: Cb<CartesianVelocities>,
    l: Option<bool>,
    cf: Option<f64>,
) -> FrankaResult<()> {
    r.control_torques_and_cartesian_velocities(t, cb, l, cf)
}

// ---- setpoint constructors ---------------------------------------------------------------
pub fn new_torques(a: [f64; 7]) -> Torques {
    Torques::new(a)
}
pub fn new_joint_positions(a: [f64; 7]) -> JointPositions {
    JointPositions::new(a)
}
pub fn new_joint_velocities(a: [f64; 7]) -> JointVelocities {
    JointVelocities::new(a)
}
pub fn new_cartesian_pose(a: [f64; 16], e: Option<[f64; 2]>) -> CartesianPose {
    CartesianPose::new(a, e)
}
pub fn new_cartesian_velocities(a: [f64; 6], e: Option<[f64; 2]>) -> CartesianVelocities {
    CartesianVelocities::new(a, e)
}
pub fn finished_torques(a: Torques) -> Torques {
    a.motion_finished()
}
pub fn finished_joint_positions(a: JointPositions) -> JointPositions {
    a.motion_finished()
}
pub fn finished_joint_velocities(a: JointVelocities) -> JointVelocities {
    a.motion_finished()
}
pub fn finished_cartesian_pose(a: CartesianPose) -> CartesianPose {
    a.motion_finished()
}
pub fn finished_cartesian_velocities(a: CartesianVelocities) -> CartesianVelocities {
    a.motion_finished()
}
pub fn pose_has_elbow(a: &CartesianPose) -> bool {
    a.has_elbow()
}
pub fn vel_has_elbow(a: &CartesianVelocities) -> bool {
    a.has_elbow()
}
pub fn is_valid_elbow(e: &[f64; 2]) -> bool {
    CartesianPose::is_valid_elbow(e)
}

// ---- Gripper -----------------------------------------------------------------------------
pub fn gripper_new(addr: &str) -> FrankaResult<Gripper> {
    Gripper::new(addr)
}
pub fn gripper_move(g: &mut Gripper, width: f64, speed: f64) -> FrankaResult<bool> {
    g.move_gripper(width, speed)
}
pub fn gripper_homing(g: &mut Gripper) -> FrankaResult<bool> {
    g.homing()
}
pub fn gripper_stop(g: &mut Gripper) -> FrankaResult<bool> {
    g.stop()
}
pub fn gripper_grasp(
    g: &mut Gripper,
    width: f64,
    speed: f64,
    force: f64,
    inner: Option<f64>,
    outer: Option<f64>,
) -> FrankaResult<bool> {
    g.grasp(width, speed, force, inner, outer)
}
pub fn gripper_read_once(g: &mut Gripper) -> FrankaResult<GripperState> {
    g.read_once()
}
pub fn gripper_server_version(g: &Gripper) -> u16 {
    g.server_version()
}

// ---- Model -------------------------------------------------------------------------------
pub fn model_new(p: &Path, libm: Option<&Path>) -> FrankaResult<Model> {
    Model::new(p, libm)
}
pub fn model_pose(m: &Model, f: &Frame, q: &[f64; 7], ee: &[f64; 16], k: &[f64; 16]) -> [f64; 16] {
    m.pose(f, q, ee, k)
}
pub fn model_pose_from_state(m: &Model, f: &Frame, s: &RobotState) -> [f64; 16] {
    m.pose_from_state(f, s)
}
pub fn model_body_jacobian(m: &Model, f: &Frame, q: &[f64; 7], ee: &[f64; 16], k: &[f64; 16]) -> [f64; 42] {
    m.body_jacobian(f, q, ee, k)
}
pub fn model_body_jacobian_from_state(m: &Model, f: &Frame, s: &RobotState) -> [f64; 42] {
    m.body_jacobian_from_state(f, s)
}
pub fn model_zero_jacobian(m: &Model, f: &Frame, q: &[f64; 7], ee: &[f64; 16], k: &[f64; 16]) -> [f64; 42] {
    m.zero_jacobian(f, q, ee, k)
}
pub fn model_zero_jacobian_from_state(m: &Model, f: &Frame, s: &RobotState) -> [f64; 42] {
    m.zero_jacobian_from_state(f, s)
}
pub fn model_mass(m: &Model, q: &[f64; 7], i: &[f64; 9], mt: f64, x: &[f64; 3]) -> [f64; 49] {
    m.mass(q, i, mt, x)
}
pub fn model_mass_from_state(m: &Model, s: &RobotState) -> [f64; 49] {
    m.mass_from_state(s)
}
pub fn model_coriolis(
    m: &Model,
    q: &[f64; 7],
    dq: &[f64; 7],
    i: &[f64; 9],
    mt: f64,
    x: &[f64; 3],
) -> [f64; 7] {
    m.coriolis(q, dq, i, mt, x)
}
pub fn model_coriolis_from_state(m: &Model, s: &RobotState) -> [f64; 7] {
    m.coriolis_from_state(s)
}
pub fn model_gravity(m: &Model, q: &[f64; 7], mt: f64, x: &[f64; 3], g: Option<&[f64; 3]>) -> [f64; 7] {
    m.gravity(q, mt, x, g)
}
pub fn model_gravity_from_state(m: &Model, s: &RobotState, g: Option<&[f64; 3]>) -> [f64; 7] {
    m.gravity_from_state(s, g)
}

// ---- utilities ---------------------------------------------------------------------------
pub fn util_low_pass(t: f64, y: f64, yl: f64, c: f64) -> f64 {
    low_pass_filter(t, y, yl, c)
}
pub fn util_cartesian_low_pass(t: f64, y: &[f64; 16], yl: &[f64; 16], c: f64) -> [f64; 16] {
    cartesian_low_pass_filter(t, y, yl, c)
}
pub fn util_motion_generator_new(speed: f64, goal: &[f64; 7]) -> MotionGenerator {
    MotionGenerator::new(speed, goal)
}
pub fn util_generate_motion(m: &mut MotionGenerator, s: &RobotState, d: &Duration) -> JointPositions {
    m.generate_motion(s, d)
}
/// a new generator, its first setpoint, and the one a time d later
pub fn util_motion(speed: f64, goal: &[f64; 7], s: &RobotState, s2: &RobotState, d: &Duration) -> (JointPositions, JointPositions) {
    let mut m = MotionGenerator::new(speed, goal);
    let a = m.generate_motion(s, &Duration::from_secs(0));
    let b = m.generate_motion(s2, d);
    (a, b)
}
pub fn util_array_to_isometry(a: &[f64; 16]) -> nalgebra::Isometry3<f64> {
    array_to_isometry(a)
}
pub fn errors_display(e: &FrankaErrors, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}
pub fn exception_display(e: &FrankaException, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}

// ---- reference definitions ---------------------------------------------------------------
// Not part of the analysed crate: the documented filter and limiter of a Cartesian pose, written down
// independently, as the oracle that the terms of the real control functions are compared with.
use nalgebra::{Isometry3, Matrix3, Rotation3, Translation3, UnitQuaternion, Vector3};

fn spec_iso(a: &[f64; 16]) -> Isometry3<f64> {
    let m = Matrix3::new(a[0], a[4], a[8], a[1], a[5], a[9], a[2], a[6], a[10]);
    Isometry3::from_parts(Translation3::new(a[12], a[13], a[14]), UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix(&m)))
}
fn spec_array(i: &Isometry3<f64>) -> [f64; 16] {
    let h = i.to_homogeneous();
    [
        h[(0, 0)], h[(1, 0)], h[(2, 0)], h[(3, 0)], h[(0, 1)], h[(1, 1)], h[(2, 1)], h[(3, 1)],
        h[(0, 2)], h[(1, 2)], h[(2, 2)], h[(3, 2)], h[(0, 3)], h[(1, 3)], h[(2, 3)], h[(3, 3)],
    ]
}
/// the pose filter: low-pass of the translation, spherical interpolation of the rotation
pub fn spec_pose_filter(y: &[f64; 16], last: &[f64; 16], gain: f64) -> [f64; 16] {
    let (a, b) = (spec_iso(y), spec_iso(last));
    let t = Translation3::new(
        gain * y[12] + (1. - gain) * last[12],
        gain * y[13] + (1. - gain) * last[13],
        gain * y[14] + (1. - gain) * last[14],
    );
    spec_array(&Isometry3::from_parts(t, b.rotation.slerp(&a.rotation, gain)))
}
/// angular velocity (per second) that turns the last pose into the new one within a millisecond
pub fn spec_pose_omega(y: &[f64; 16], last: &[f64; 16]) -> [f64; 3] {
    let (a, b) = (spec_iso(y), spec_iso(last));
    let mut d = a.rotation.to_rotation_matrix() * b.rotation.to_rotation_matrix().transpose();
    d.renormalize();
    let s = d.scaled_axis();
    [s[0] / 1e-3, s[1] / 1e-3, s[2] / 1e-3]
}
/// the last pose turned by the angular velocity w for a millisecond, translated to t
pub fn spec_pose_turn(last: &[f64; 16], w: &[f64; 3], t: &[f64; 3]) -> [f64; 16] {
    let b = spec_iso(last);
    let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let mut q = b.rotation;
    if n > f64::EPSILON {
        let (x, y, z) = (w[0] / n, w[1] / n, w[2] / n);
        let k = Matrix3::new(0., -z, y, z, 0., -x, -y, x, 0.);
        let r: Matrix3<f64> = Matrix3::identity() + f64::sin(1e-3 * n) * k + (1. - f64::cos(1e-3 * n)) * (k * k);
        q = UnitQuaternion::from_matrix(&(r * b.rotation.to_rotation_matrix()));
    }
    spec_array(&Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), q))
}

// ---- time between two states, from their message ids (milliseconds) ------------------------
pub fn spec_step_sub(a: u64, b: u64) -> Duration {
    Duration::from_millis(a) - Duration::from_millis(b)
}
pub fn spec_step_millis(a: u64, b: u64) -> Duration {
    Duration::from_millis(a - b)
}
pub fn spec_step_saturating(a: u64, b: u64) -> Duration {
    Duration::from_millis(a).saturating_sub(Duration::from_millis(b))
}

// ---- the synchronised point-to-point joint motion (Khalil, Dombre) --------------------------
fn spec_traj(speed: f64, goal: &[f64; 7], s: &RobotState, t: f64, longest: fn(&[f64; 7]) -> f64) -> ([f64; 7], bool, [f64; 21]) {
    let v = [2.0, 2.0, 2.0, 2.0, 2.5, 2.5, 2.5];
    let acc = 5. * speed;
    let mut tf = [0.; 7];
    for i in 0..7 {
        let way = (goal[i] - s.q_d[i]).abs();
        if way > 1e-6 {
            // short ways do not reach the maximal velocity
            let mut vel = v[i] * speed;
            if way < 1.5 * vel * vel / acc {
                vel = f64::sqrt(2. / 3. * way * acc);
            }
            tf[i] = 1.5 * vel / acc + way / vel;
        }
    }
    let total = longest(&tf);
    let mut q = [0.; 7];
    let mut finished = true;
    let mut phases = [0.; 21];
    for i in 0..7 {
        let way = goal[i] - s.q_d[i];
        let sign = way.signum();
        let dist = way.abs();
        let mut moved = 0.;
        if dist >= 1e-6 {
            // velocity with which the joint needs the total time
            let (mut vel, mut t1, mut end) = (0., 0., 0.);
            if dist > 1e-6 {
                let b = total * acc * acc;
                let disc = f64::max(b * b - 4. * (1.5 * acc) * (dist * acc * acc), 0.);
                vel = (b - f64::sqrt(disc)) / (2. * (1.5 * acc));
                t1 = 1.5 * vel / acc;
                end = t1 + (way / vel).abs();
            }
            let t2 = end - t1;
            phases[3 * i] = t1;
            phases[3 * i + 1] = t2;
            phases[3 * i + 2] = end;
            if t < t1 {
                moved = sign * vel * t * t * t * (t1 - 0.5 * t) / (t1 * t1 * t1);
            } else if t < t2 {
                moved = sign * (0.5 * vel * t1 + vel * (t - t1));
            } else if t < end {
                let d = end - t2;
                let x = t - t2;
                moved = way + 0.5 * sign * vel * ((x - 2. * d) * x * x * x / (d * d * d) + 2. * x - d);
            } else {
                moved = way;
            }
            finished = finished & !(t < end);
        }
        q[i] = s.q_d[i] + moved;
    }
    (q, finished, phases)
}
fn spec_max(t: &[f64; 7]) -> f64 {
    let mut m = t[0];
    for i in 1..7 {
        if m < t[i] {
            m = t[i];
        }
    }
    m
}
fn spec_max0(t: &[f64; 7]) -> f64 {
    t.iter().fold(0., |a, &b| f64::max(a, b))
}
fn spec_maxi(t: &[f64; 7]) -> f64 {
    t.iter().fold(f64::NEG_INFINITY, |a, &b| f64::max(a, b))
}
pub fn spec_motion(speed: f64, goal: &[f64; 7], s: &RobotState, t: f64) -> ([f64; 7], bool, [f64; 21]) {
    spec_traj(speed, goal, s, t, spec_max)
}
pub fn spec_motion0(speed: f64, goal: &[f64; 7], s: &RobotState, t: f64) -> ([f64; 7], bool, [f64; 21]) {
    spec_traj(speed, goal, s, t, spec_max0)
}
pub fn spec_motioni(speed: f64, goal: &[f64; 7], s: &RobotState, t: f64) -> ([f64; 7], bool, [f64; 21]) {
    spec_traj(speed, goal, s, t, spec_maxi)
}
pub fn spec_isometry(a: &[f64; 16]) -> Isometry3<f64> {
    spec_iso(a)
}
pub fn spec_seconds(d: &Duration) -> f64 {
    d.as_secs_f64()
}
