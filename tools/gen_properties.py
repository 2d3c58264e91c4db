#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as a script so that the text stays readable).
import json, os
E='src/ekf/'; U='src/ekf/update/'; I='src/infrastructure/'; S='src/sensors/'; T='src/trackers/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Filter time never runs backwards; late messages never rewind the filter',
 'After any message the filter time equals the later of its previous value and the message time on the filter clock. The first message ever received defines the zero of that clock unless the filter was explicitly initialised, and a request to predict into the past changes nothing at all: time, estimates, uncertainty and window stay bit-for-bit the same.',
 ['schedules','histories','fault_sequences'],'Every delivery order of IMU, GPS and camera messages, with loss, duplication, reordering, delay, sensor clock skew and clock jumps, in every filter configuration.',
 'Tests call each updater once or twice with increasing stamps; no test delivers a late or duplicated message after state has been built up.',
 [E+'ekf.cpp',U+'imu_updater.cpp',U+'gps_updater.cpp',U+'msckf_updater.cpp',U+'fiducial_updater.cpp'],
 [('guard in predict, local-time conversion','EKF::PredictModel, EKF::CalculateLocalTime')],['filter time, state and covariance getters after each message'],
 [('current time','filter clock','EKF::m_current_time'),('reference time','epoch of the filter clock','EKF::m_reference_time')])
p('C02','State, index map and covariance always describe the same layout',
 'At every moment the reported state size, the covariance dimensions, the per-section sizes and start offsets, and the index stored in every calibrated sensor, fiducial and window pose describe one gap-free, non-overlapping layout in the order body, IMUs, GPS, cameras, fiducials, window poses. Sensors that are not calibrated take no room in it. The state written as a vector follows the same layout, and setting a state from its own vector gives the state back.',
 ['histories','configurations','schedules'],'Any mix and order of registrations, frames, window evictions and measurements, in every augmentation mode and both covariance forms.',
 'Tests register one or two sensors and look at sizes once; they never interleave registrations with a growing and shrinking pose window.',
 [E+'ekf.cpp',E+'types.cpp'],[('index refresh after each structural change','EKF::RefreshIndices, EKF::Register*, EKF::AugmentStateIfNeeded')],['public state maps, covariance, size and start getters'])
p('C03','Uncertainty is always a valid covariance',
 'After every message the covariance the filter represents is finite, symmetric to rounding and positive semi-definite, in both the standard and the square-root form. Processing a measurement never increases the variance of any estimated quantity beyond what the prediction to that time gave it.',
 ['histories','fault_sequences','configurations'],'Any sequence of finite measurements with positive noise, including outliers, long outages, duplicated messages and late registrations.',
 'Tests inspect covariances after a single update from an identity-like prior.',
 [E+'ekf.cpp',U+'updater.cpp','src/utility/math_helper.cpp'],[('Joseph-form and QR updates','Updater::KalmanUpdate, QR_r'),('prediction','EKF::PredictModel')],['covariance after each message'])
p('C04','Estimates stay finite and orientations stay unit quaternions',
 'For every sequence of finite messages, however late, duplicated, sparse or wrong their values, every estimate the filter holds is finite and every orientation is a unit quaternion to rounding. No message makes the filter abort or throw. (Grossly wrong values are judged with one prediction IMU; with several, plausible ones.)',
 ['histories','fault_sequences','inputs'],'Any history of finite messages of bounded magnitude, any configuration.',
 'Tests feed a few benign values.',
 [E+'types.cpp',E+'ekf.cpp',U+'updater.cpp'],[('quaternion composition','State::operator+='),('guards on division and window lookup','EKF::GetAugState, MsckfUpdater')],['all public state members'])
p('C05','Prediction is exactly the documented motion model',
 'Between measurements, once gravity is established, velocity integrates acceleration minus gravity (zero while stationary), position integrates the new velocity, orientation integrates the angular rate, and the covariance becomes F(P+Q dt)F^T with the configured process noises; nothing else changes. Before gravity is established prediction moves only the clock.',
 ['histories','inputs','configurations'],'Any time step from zero to long outages, any state and covariance reached by a history, both covariance forms, any registered sensors and window poses.',
 'The predict tests check a couple of steps of the mean in one configuration and hardly touch the covariance or its cross terms.',
 [E+'ekf.cpp'],[('prediction','EKF::PredictModel, EKF::GetStateTransition, EKF::RefreshIndices')],['state and covariance before and after a prediction'])
p('C06','Measurement updates equal the textbook Kalman update',
 'Each GPS fix, IMU sample used as a measurement, and fiducial detection changes state and covariance exactly as the Kalman update with that measurement\'s documented model, its own reported noise and the predicted prior. Quantities in no way correlated with the measurement do not move.',
 ['histories','inputs','configurations'],'Any reachable prior (with cross-correlations), any finite measurement, diagonal or correlated noise, both covariance forms, with and without first-estimate Jacobians.',
 'Updater tests look at one update from a trivial prior, mostly for signs and sizes.',
 [U+'updater.cpp',U+'gps_updater.cpp',U+'imu_updater.cpp',U+'fiducial_updater.cpp'],[('Kalman update','Updater::KalmanUpdate'),('measurement models','*::PredictMeasurement, *::GetMeasurementJacobian')],['state and covariance around each message'])
p('C07','Square-root and standard filters give the same answers',
 'For the same configuration and the same messages, the filter run in square-root form and the filter run in standard form report the same estimates and the same covariance to rounding, at every point of the run.',
 ['histories','schedules','configurations'],'Any message history with faults, any sensors, any augmentation mode.',
 'No test compares the two forms; most tests use only one of them.',
 [E+'ekf.cpp',U+'updater.cpp',U+'imu_updater.cpp','src/utility/math_helper.cpp'],[('parallel branches for each operation','every use of the root-covariance flag')],['state and covariance of two filters run in lockstep'])
p('C08','Parameters that are not calibrated never change',
 'Extrinsic or intrinsic parameters of a sensor or fiducial that is not being calibrated keep, bit for bit, the values they were registered with through the whole life of the filter, and camera intrinsics always do. Calibrated parameters change only through measurement updates, never through prediction or the registration of something else.',
 ['histories','configurations'],'Any subset of calibrated sensors, any message history with faults.',
 'Tests do not mix calibrated and uncalibrated sensors in one run.',
 [E+'types.cpp',E+'ekf.cpp',U+'imu_updater.cpp'],[('flags consulted when a correction is applied','operator+= for the sensor maps')],['public state maps'])
p('C09','Stationary detection and gravity initialisation follow their protocol',
 'Gravity becomes established at the first IMU sample whose stationarity score is below the configured threshold and stays so forever. An IMU treats samples as stationary (zero angular rate, body acceleration equal to gravity, bias and tilt correction from the sample) until, with gravity established, one of its samples scores above the threshold; from then on that IMU is in motion for good, and only then do its samples drive acceleration and angular rate.',
 ['histories','schedules','inputs'],'Any IMU history (rest, motion, rest again), several IMUs, thresholds and noise scales, both covariance forms, interleaved with other sensors.',
 'The one stationary test runs a handful of samples of a single IMU.',
 [U+'imu_updater.cpp',E+'ekf.cpp'],[('zero-acceleration update and motion latch','ImuUpdater::ZeroAccelerationUpdate, ImuUpdater::UpdateEKF')],['gravity flag, body state, covariance'],
 [('motion latch','per-IMU, never reset','ImuUpdater::m_initial_motion_detected')])
p('C10','The GPS frame is initialised once, on the configured evidence, and correctly',
 'Until the reference frame is initialised GPS fixes change no estimate; with a constant reference it is initialised from the start, otherwise at the first fix (at least four) at which the configured baseline or error criterion holds, and never again. When fixes agree with the local trajectory the recovered origin and heading are the true ones for every heading and offset.',
 ['histories','inputs','configurations'],'Any trajectory and true frame (all headings, offsets, latitudes), any interleaving with other messages, any criterion.',
 'Tests use one small positive heading near one origin.',
 [E+'ekf.cpp',U+'gps_updater.cpp','src/utility/math_helper.cpp','src/utility/gps_helper.cpp'],[('initialisation from buffered fixes','EKF::AttemptGpsInitialization, kabsch_2d, affine_angle'),('latch','EKF::SetGpsReference')],['reference getters, state around each fix'])
p('C11','The pose window is bounded, ordered and made of true copies of the body pose',
 'A new window pose equals the body pose at the moment it is taken, with exactly the body pose\'s covariance and cross-covariance; dropping a pose removes only that pose and leaves every other estimate and (cross-)covariance unchanged. The window of a camera never exceeds the configured length in the per-frame modes, is ordered by time, follows the configured augmentation rule, and in the time- and error-driven modes holds no pose beyond the allowed age except the newest needed one.',
 ['histories','schedules','configurations'],'Any camera frame schedule with drops, duplicates and several cameras, all augmentation modes and window lengths, both covariance forms.',
 'Tests augment a few times and check sizes; none checks the content of the covariance after an eviction.',
 [E+'ekf.cpp','src/utility/math_helper.cpp'],[('augmentation and pruning','EKF::AugmentStateIfNeeded (both), EKF::AugmentCovariance, RemoveFromMatrix')],['window poses and covariance around each frame'])
p('C12','Feature tracks correct the filter exactly as the MSCKF model says',
 'A batch of feature tracks changes the filter as the Kalman update of the projected feature residuals with the feature position marginalised (null space), at the window poses of the frames in which the features were seen. Observations of frames no longer held contribute nothing, nor do tracks without a known feature position that cannot be triangulated within the configured range.',
 ['histories','inputs','configurations','fault_sequences'],'Any window content, tracks with missing or evicted frames, frame drops and blackouts, every augmentation mode, both covariance forms.',
 'The MSCKF tests run a tiny noiseless scene and check little of the resulting covariance; the null-space test checks matrix sizes.',
 [U+'msckf_updater.cpp',E+'ekf.cpp','src/utility/math_helper.cpp'],[('null-space projection, compression, window lookup','MsckfUpdater::UpdateEKF, ApplyLeftNullspace, CompressMeasurements, EKF::GetAugState')],['state and covariance around each track message'])
p('C13','Logs have one header, complete rows, bounded rate and true values',
 'Every log file that is written starts with exactly one header line, every later line has as many fields as the header, and time never decreases beyond what the messages themselves did. A rate-limited log never holds more than one row plus rate times elapsed time, and a row that leaves it at least one whole row below that limit is written. The values and variances in a row are those of the filter when the row was taken, in either covariance form.',
 ['histories','configurations','fault_sequences'],'Any configuration of logging sensors, any log rates, any message history.',
 'The logger test writes two rows; no test reads what the filter logged.',
 [I+'data_logger.cpp',E+'ekf.cpp',U+'imu_updater.cpp',U+'gps_updater.cpp',U+'msckf_updater.cpp',U+'fiducial_updater.cpp'],[('lazy open, header, rate limit','DataLogger::Log, DataLogger::RateLimitedLog')],['bytes of the log files'])
p('C14','Logging never influences the estimates',
 'Turning data or debug logging on or off, changing its rate, or having its directory missing, its disk full, failing, slow or interrupted, changes no estimate by a single bit and never stops message processing.',
 ['fault_sequences','histories','configurations'],'Any message history, any sequence of I/O faults on any log file.',
 'Tests never fail an open or a write.',
 [I+'data_logger.cpp',E+'ekf.cpp'],[('stream errors ignored, logs written after the state is final','DataLogger::Log')],['state and covariance bits with and without logging and faults'])
p('C15','Rows logged before a crash survive it',
 'If the process is killed between two messages, every log file holds exactly the rows a clean shutdown at that point would have left: nothing logged for an already processed message is lost in a buffer, and no row is torn. If it is killed during a write, at most that last line is incomplete.',
 ['crash_points','histories'],'Every crash point of every message history.',
 'Tests always end with orderly destruction.',
 [I+'data_logger.cpp'],[('flush after each row','DataLogger::Log')],['bytes handed to the operating system at the crash point'])
p('C16','The same configuration, seed and messages give the same results',
 'Two runs with the same configuration, seed and messages produce identical estimates and identical logs apart from execution durations, whatever the wall clock, the contents of uninitialised memory, the log directory or the debug level. Different non-zero seeds give different simulated runs.',
 ['histories','schedules','configurations'],'Any simulated run of the filter and of the complete simulator application; any wall-clock behaviour including jumps; any memory contents.',
 'Tests run once in one environment.',
 ['src/application/sim/simulation.cpp','src/utility/sim/sim_rng.cpp',E+'ekf.cpp','src/utility/math_helper.cpp'],[('single seeded generator, no clock in the estimates','SimRNG, main of the simulator')],['log bytes and state bits of repeated runs'])
p('C17','Simulated sensor streams are honest about the truth',
 'Without errors every simulated IMU, GPS, camera feature and fiducial message equals what the true trajectory and true calibration imply at its time stamp, at the configured rate over the simulated span, and the true velocity and acceleration are the derivatives of the true position (for cyclic motion the angular rate and acceleration are those of the orientation too). Feature tracks report every run of sightings of a visible feature once, in pieces within the configured lengths. With errors, IMU, GPS and board measurements scatter about those values with the configured standard deviations and report the matching covariance, and features fall on whole pixels.',
 ['inputs','configurations','histories'],'Any trajectory parameters, rates, calibrations, seeds.',
 'Tests check a few hand-picked times of the trajectories, and no generated message.',
 [S+'sim/sim_imu.cpp',S+'sim/sim_gps.cpp',S+'sim/sim_camera.cpp',S+'sim/sim_sensor.cpp',T+'sim/sim_feature_tracker.cpp',T+'sim/sim_fiducial_tracker.cpp',I+'sim/truth_engine_cyclic.cpp',I+'sim/truth_engine_spline.cpp','src/utility/sim/sim_rng.cpp'],[('message generation from truth','*::GenerateMessages')],['generated messages against the truth getters'])
p('C18','Once faults stop the filter recovers',
 'After any bounded period in which GPS messages are lost, late, duplicated, reordered or grossly wrong, or samples of an IMU that does not turn are lost, late, duplicated or wrong, a bounded time of good IMU and GPS data brings the position and velocity estimates and their variances back to those of a filter that never saw the faults, near the truth, and the filter keeps accepting every new message. (The receiver is mounted at the body reference point: a gross outlier acting through a lever arm is taken for a rotation.)',
 ['fault_sequences','histories'],'Any bounded fault phase followed by a clean phase, with the GPS frame given or initialised during the run, both covariance forms.',
 'No test has a fault phase.',
 [E+'ekf.cpp',U+'gps_updater.cpp',U+'imu_updater.cpp',S+'gps.cpp',S+'imu.cpp'],[('prediction and update','EKF::PredictModel, GpsUpdater::UpdateEKF')],['position, velocity and their variances in a run with faults, in its fault-free twin, and the simulated truth'])
p('C19','Results do not depend on the epoch of the time stamps',
 'Adding the same constant to the time stamps of all messages changes nothing: filter time, estimates, covariance, window and logs are the same bit for bit when the shifted stamps are exactly representable.',
 ['inputs','histories','schedules'],'Any message history started without explicit initialisation, any shift, every augmentation mode.',
 'Tests use stamps near zero.',
 [E+'ekf.cpp',U+'imu_updater.cpp',U+'gps_updater.cpp',U+'msckf_updater.cpp',U+'fiducial_updater.cpp',S+'camera.cpp'],[('one conversion to local time','EKF::CalculateLocalTime')],['state bits and log bytes of a run and its shifted twin'])
p('C20','Sensors can be registered at any time and in any order',
 'Registering a sensor or fiducial at any point of a run gives its calibrated parameters exactly the supplied initial values and covariance, uncorrelated with everything else, and changes no other estimate, variance or correlation. Registering an identifier twice is refused without any effect.',
 ['histories','schedules','configurations'],'Any order of registrations and identifiers, before, between and after messages and with a non-empty window, both covariance forms.',
 'Tests register in ascending order on a fresh filter.',
 [E+'ekf.cpp',S+'imu.cpp',S+'gps.cpp',S+'camera.cpp',T+'fiducial_tracker.cpp'],[('insertion into the covariance and duplicate check','EKF::RegisterIMU/GPS/Camera/Fiducial, InsertInMatrix')],['state and covariance around each registration'])
p('C21','The image path tolerates bad frames and fuses only what it saw',
 'Any sequence of camera images, including empty, black, saturated, noisy, occluded, torn, tiny and repeated ones, late or lost, is processed without aborting or modifying the image, for every choice of detector, descriptor, matcher, down-sampling and board type, and keeps the filter valid. An empty image changes nothing. Every other image changes the filter exactly by a prediction, its window pose, the update for the calibration boards visible in it (at the pose of the board relative to the camera) and the update for the feature tracks that ended; each of these tracks is of allowed length, its observations name frames this camera took, at the time of the frame and at the pixels, in the input image, of one thing in the scene, and none is used twice. A textured scene that stays in view yields tracks.',
 ['fault_sequences','histories','inputs'],'Any image sequence with blackouts, drops, delays, repeats and noise; both board types; all detectors, descriptors and matchers.',
 'Tests feed two good images and one board picture.',
 [S+'camera.cpp',T+'feature_tracker.cpp',T+'fiducial_tracker.cpp'],[('guards on empty detections','Camera::Callback, FeatureTracker::Track, FiducialTracker::Track')],['state and covariance around each image','the tracks handed to the MSCKF updater'])
p('C22','The simulator does what its configuration says, delivers all in order, finishes',
 'Given a valid configuration (including the shipped ones) the simulator application runs to completion with exit status zero, whatever the disk does. It sets up the filter, the sensors and the trackers as the configuration says, every parameter reaching the component it is for; processes every generated sensor message exactly once in order of its time stamp; and leaves complete, well-formed log and truth files that describe the motion, the calibrations, the boards and features, and the estimates of that run.',
 ['configurations','inputs','fault_sequences'],'Any valid configuration over all sensor kinds and options, any seed, with disk faults.',
 'No test runs the simulator.',
 ['src/application/sim/simulation.cpp',S+'sensor.cpp','src/utility/type_helper.cpp',I+'sim/truth_engine.cpp'],[('sort and dispatch','main of the simulator, MessageCompare')],['exit status and log files of the real binary'])
p('C23','Coordinate conversions are mutually inverse',
 'Geodetic, Earth-fixed, east-north-up and local coordinates convert into each other and back without loss beyond rounding for every point on or near the Earth.',
 ['inputs'],'All coordinates in range.','Tests sample some points.',
 ['src/utility/gps_helper.cpp'],[('closed-form conversions','lla_to_ecef, ecef_to_lla, ecef_to_enu, enu_to_ecef')],['return values'])
p('C24','Measurement Jacobians are the derivatives of the measurement models',
 'Every analytic measurement Jacobian equals the derivative of the corresponding predicted measurement with respect to the error state.',
 ['inputs'],'All states.','Tests sample a few states.',
 [U+'gps_updater.cpp',U+'imu_updater.cpp',U+'fiducial_updater.cpp',U+'msckf_updater.cpp'],[('analytic Jacobians','*::GetMeasurementJacobian')],['return values'])
p('C25','The ROS node serves its topics as configured and publishes the estimates',
 'Started with valid parameters (including the shipped file) the node sets up the filter, sensors, trackers and boards as they say, every parameter reaching the component it is for. Every message published on the topic of a sensor reaches that sensor and no other exactly once, in order, with the time of its header stamp and its values unchanged (colour images converted to gray scale), whatever the order in which the executor serves the topics and timers and however late; only the oldest messages of a topic with more than ten waiting may be lost, and a GPS message without a fix is ignored. The body state published every second is that of the filter, and every image received is republished, annotated, on the topic of its camera. Estimates, covariance and logs are those of the same sensors and filter given the same messages directly.',
 ['schedules','fault_sequences','configurations','histories'],'Any valid parameters, any topic traffic with loss, duplication, reordering, bursts and stalls, any schedule of the executor.',
 'The node is not built by the test suite here, and its own test only constructs it.',
 ['src/application/ros/node/ekf_cal_node.cpp','src/application/ros/ekf_cal_main.cpp',S+'ros/ros_imu.cpp',S+'ros/ros_gps_message.cpp',S+'ros/ros_camera_message.cpp','src/utility/ros_helper.cpp'],[('parameters, subscriptions, timers and publishers','EkfCalNode'),('message conversion','RosImuMessage, RosGpsMessage, RosCameraMessage')],['what each sensor callback receives','published topics','state, covariance and logs of the node and of a twin assembled without it'])
p('C26','A Monte Carlo run simulates every run of every input once, on its own',
 'The Monte Carlo runner simulates every run of every given input exactly once, in a directory of its own that the reports look into, with the configuration of its input unchanged except for the number of the run (consecutive from that of the input), the requested time and a seed of its own. Seeds of the runs of an input differ from each other, and are a function of the seed of the input alone: repeating the call, another order of the workers, other inputs or another number of jobs reproduces them; a seed of zero asks for fresh ones. No more simulators than asked for run at once. A run that fails, hangs on to its output or cannot be started, and an input that cannot be used, prevent no other run and are reported. The captured output of a directory is that of its latest run. Inputs are never changed, nothing is written outside the directories of the inputs, and these are ignored by git. The lists the statistics and reports are made from name exactly these runs, and evaluation starts only after all of them have ended. After a crash of the runner at any point, calling it again gives complete results.',
 ['schedules','fault_sequences','configurations','crash_points','histories'],'Any set of inputs and options, sequences of calls, any schedule of the workers, failing simulators and files, crash of the runner at any step.',
 'The runner has no tests; what matters (schedules, failures, crashes, repeated calls) is not reachable by calling a function.',
 ['eval/run.py','eval/evaluate.py','eval/utilities.py','eval/input_parser.py'],[('process pool, configurations of the runs, captured output','run_sim, generate_mc_from_yaml, add_jobs'),('lists of runs','generate_mc_lists')],['processes started and what they are given','files and directories','lists of runs','exit and printed reports'])
p('C27','The statistics of a batch are those of its runs, whichever of them failed',
 'For every batch, stats.txt in the directory of the batch (or of the run, for a single one) gives for each quantity of the filter body (position, velocity, acceleration, angular rate and acceleration), of each inertial unit (position, biases), camera (position) and GPS receiver (reference position and heading after initialization) the mean and the deviation, over the runs of the batch that logged both the estimate and the truth, of the run\'s root-mean-square error (for the GPS reference: its error), each estimate compared with the truth of its own run interpolated at the time of the estimate; and likewise the size of the state, the duration of updates, and the number of fixes before initialization. Runs that did not start, were killed while they wrote, or whose logs are missing, empty or cut short take no part in what they did not log, and only whole rows count; they neither prevent nor change the statistics of the others. Identifiers of sensors, names and directories of inputs, the number of runs, results left over from earlier batches and inputs that cannot be used make no difference.',
 ['fault_sequences','crash_points','configurations','histories'],'Any set of inputs and options, any combination of failed, killed and damaged runs.',
 'The evaluation has no tests, and a complete batch, which ordinary use gives, hides every mix-up between runs.',
 ['eval/stats.py','eval/utilities.py','eval/input_parser.py'],[('statistics and summary','calc_sim_stats, write_summary'),('reading of logs, lists of runs','find_and_read_data_frames, generate_mc_lists')],['stats.txt of every batch','exit of the script'])
p('C28','The report of a batch shows every run against its own truth',
 'For every batch the report has one tab for the body and for each inertial unit, camera, fiducial tracker and GPS receiver that some run logged, and in it, for every run that logged both the sensor and the truth (for a fiducial tracker, also that of its board): the logged estimates, measurements, residuals and variances at their times; the errors of position, attitude and biases, each estimate against the truth of its own run interpolated at the time of the estimate; the squared errors normalised by the logged variances; for a camera the mean and deviation, over all runs and features, of the triangulation errors at each time, each against the feature of the same run; and the number and range of the durations of all updates. Values are in the unit that their axis names, and the components are told apart as x, y and z. Nothing else is shown: no line mixes runs, components or sensors, or shows rows that no run logged. Runs that did not start, were killed while they wrote, or whose logs are missing, empty or cut short take no part in what they did not log, and neither prevent nor change the rest.',
 ['fault_sequences','crash_points','configurations','histories'],'Any set of inputs and options, any combination of failed, killed and damaged runs.',
 'The report has no tests, and a complete batch of equally long runs, which ordinary use gives, hides every mix-up between runs.',
 ['eval/report.py','eval/tab_body.py','eval/tab_imu.py','eval/tab_msckf.py','eval/tab_fiducial.py','eval/tab_gps.py','eval/utilities.py'],[('choice of runs and tabs','plot_sim_results, match_runs'),('what a tab shows','tab_body, tab_imu, tab_msckf, tab_fiducial, tab_gps'),('errors and timing','interpolate_error, interpolate_quat_error, plot_update_timing')],['the figures of every report','exit of the script'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
