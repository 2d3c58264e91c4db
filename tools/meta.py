"""What each check runs for real, what it replaces, and what it assumes."""
FILTER_REAL = ['EKF (prediction, window, registration, covariance forms)', 'IMU, GPS, camera, MSCKF and fiducial updaters',
               'IMU, GPS and SimCamera sensor classes with their Callbacks', 'data and debug loggers', 'math, GPS and type helpers']
FILTER_STUB = ['sensor hardware and middleware: messages come from the simulated world through a scheduler that loses, delays, '
               'duplicates, reorders and corrupts them', 'wall clock: simulated (std::chrono clocks)',
               'feature detection and matching: tracks are generated (the image path is checked under C21)']
LOG_STUB = ['disk: real files in a scratch directory behind intercepted open/write/close with injected faults']
BASE = ['IEEE double arithmetic as compiled here (gcc 13, -O1); comparisons with the reference model use tolerances scaled by '
        'the conditioning of each step', 'single-threaded use, as the library is written']
STATE_RULE = ('One evaluation is one simulated execution from one seed: a generated configuration, sensor set, message schedule and '
              'fault sequence. Distinct and non-trivial: the hash of the whole observed trace is new and the oracle was evaluated at least five times in it.')
STATE = ('operation kind, fault tag, augmentation mode, covariance form, first-estimate flag, gravity and GPS frame flags, which update '
         'ran, window size, sensor counts (per property, the subset that applies); only operations that reached the oracle count')
REFINE = dict(rule=STATE_RULE, real=FILTER_REAL, stub=FILTER_STUB + LOG_STUB,
              assume=BASE + ['runs are cut where the estimate has diverged numerically (counted as "diverged"); from there only C04 applies'])
META = {}
for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C20'):
    META[k] = REFINE
META['C07'] = dict(rule=STATE_RULE + ' Each execution drives a standard and a square-root filter in lockstep, plus three standard '
                   'filters whose covariance is disturbed by rounding-size noise, which set the tolerance.',
                   real=FILTER_REAL, stub=FILTER_STUB, assume=BASE + ['a run ends where a decision (motion score, GPS frame) falls within rounding of its threshold'])
TWIN = STATE_RULE + ' Each execution is run twice under different environments and compared bit for bit.'
META['C14'] = dict(rule=TWIN, real=FILTER_REAL, stub=FILTER_STUB + LOG_STUB, assume=BASE)
META['C15'] = dict(rule='One evaluation is one execution killed at one point (between two messages, or inside the n-th write after some '
                   'bytes of it), compared with the same execution ended cleanly there. Distinct and non-trivial: the surviving bytes are new and at least five log files were compared, or a write was interrupted.',
                   real=FILTER_REAL, stub=FILTER_STUB + ['disk: real files; the crash ends the process at an intercepted write'],
                   assume=['process crash, not power loss: what reached the operating system survives'])
META['C16'] = dict(rule=TWIN + ' The second run has another wall clock, other heap and stack contents, and for every other seed is another build '
                   'in which automatic variables start as zeros instead of a pattern.', real=FILTER_REAL, stub=FILTER_STUB + LOG_STUB, assume=BASE)
META['C19'] = dict(rule=TWIN + ' The second run has every time stamp shifted; stamps and shifts are multiples of 2^-10 s, so differences are exact.',
                   real=FILTER_REAL, stub=FILTER_STUB + LOG_STUB, assume=BASE)
META['C17'] = dict(rule='One evaluation is one simulated scenario from one seed: a trajectory, sensors with calibrations and errors, and every message they '
                   'generate. Distinct and non-trivial: the hash of all messages is new and at least five of them were judged.',
                   state='sensor kind, which errors are on, tracker and board, time jitter, truth engine, stationary phase, distortion, message count class',
                   real=['simulated IMU, GPS, camera, feature tracker and board tracker', 'truth engines (cyclic, spline, smoother)', 'seeded random numbers'],
                   stub=['none: the expected values come from formulas written for the check and, for spline and smoother motion, from the engine whose consistency is checked first'],
                   assume=BASE + ['statistical tests reject at 7.5 deviations or more; a pass bounds the error of the deviations, it does not prove a distribution'])
META['C18'] = dict(rule='One evaluation is one scenario from one seed run twice, with a bounded phase of faults and without. Distinct and non-trivial: the hash of the '
                   'estimates after the faults is new and at least five good fixes after the settling time were compared.',
                   state='covariance form, augmentation, gravity direction, GPS frame mode, fault kinds, which sensor failed',
                   real=FILTER_REAL, stub=FILTER_STUB,
                   assume=BASE + ['settling time: 2 s plus 2.5 ln(10 size / sigma + 30) periods of the position loop, at most 32 s; measured decay is over ten times faster than allowed',
                                  'both runs are asked to predict to the same instants, so that gyro samples are held over the same intervals',
                                  'faults of the IMU are injected only while the body does not turn: a lost rate sample of a turning body is not recoverable from GPS'])
META['C22'] = dict(rule='One evaluation is one run of the simulator application (its main function, from a configuration file to its logs) from one seed: a generated or '
                   'shipped configuration, disk faults and wall-clock behaviour. Distinct and non-trivial: the hash of the processed messages and of the log sizes is new '
                   'and at least five messages were judged.',
                   state='configuration (shipped file, or truth engine), sensor kinds with their options, augmentation, covariance form, disk fault kind',
                   real=['main of the simulator application with the YAML reader', 'truth engines, simulated sensors and trackers, seeded random numbers',
                         'filter, updaters, logs'],
                   stub=['wall clock and file calls go through the seam', 'the three sensor callbacks are intercepted at link time to record each message, then run'],
                   assume=BASE + ['linker wrapping of the three callbacks; a build in which they are renamed loses the dispatch clauses (counted as probe.seam_lost), not the others',
                                  'the initial estimate is compared only when the configuration gives it no error'])
META['C25'] = dict(rule='One evaluation is one run of the ROS node (its main function) from one seed: parameters, topic traffic with faults, and every decision of the '
                   'executor; its sensors and filter are run again without the node and compared. Distinct and non-trivial: the hash of all deliveries, states and publications is '
                   'new and the oracle was evaluated at least five times in it.',
                   state='message kind, fault tag, state size, gravity and GPS frame flags, out-of-order delivery, number of sensors',
                   real=['main of the node, EkfCalNode, the ROS sensor classes and message conversions', 'trackers, updaters, EKF, logs'],
                   stub=['rclcpp, the message packages and cv_bridge are stand-ins with the same interfaces: parameters with their types and overrides, topics with queues of the '
                         'requested depth, timers, publishers, image conversions', 'the executor is the simulator: each step runs a ready callback chosen by the plan',
                         'wall clock: simulated', 'the debug log goes to the file back end (the ROS console back end is not compiled)'],
                   assume=BASE + ['the stand-in middleware behaves like rclcpp with a single-threaded executor', 'linker wrapping of the sensor callbacks and of the filter constructor; a '
                                  'build in which they are renamed loses those clauses (counted as probe.seam_lost), not the others'])
META['C21'] = dict(rule='One evaluation is one execution from one seed: a textured wall and calibration boards rendered along a motion for one or two cameras, damaged, '
                   'delayed, repeated and lost images, fed to the real camera and trackers. Distinct and non-trivial: the hash of the observed trace is new and the oracle was evaluated at least five times in it.',
                   real=['Camera, FeatureTracker and FiducialTracker with OpenCV', 'MSCKF, fiducial and IMU updaters', 'EKF'],
                   stub=['camera hardware: images are rendered by the harness (wall, boards, lens distortion), then damaged', 'wall clock: simulated'],
                   assume=BASE + ['OpenCV itself is trusted; the harness runs its own board detection on the same image with the configured camera matrix and board',
                                  'feature positions and identities are judged in bulk (most observations), not one by one', 'OpenCV runs single-threaded'])
META['C26'] = dict(rule='One evaluation is one history from one seed: a set of inputs and one to three calls of a script (run or evaluate) with options, every decision of '
                   'the scheduler, failing simulators, file faults, and possibly a crash of the runner. Distinct and non-trivial: the hash of everything that happened is new and at least '
                   'five judgements were made in it.',
                   state='script, options, number of inputs and runs, scheduling policy, faults, crash, kind of bad input, repeated call',
                   real=['eval/run.py, eval/evaluate.py, eval/utilities.py, eval/input_parser.py: their real code, run as main'],
                   stub=['multiprocessing, concurrent.futures, subprocess and threading: processes are contexts of a seeded scheduler with their own globals, random state, working directory '
                         'and environment', 'the simulator binary: a stand-in that reads its configuration, writes into its directory and ends as the plan says (its behaviour is under C22)',
                         'plotting and numeric libraries: empty modules', 'disk: real files in a scratch directory behind intercepted open, mkdir, rename and remove, with injected faults'],
                   assume=['the processes of the pool are not killed from outside', 'when the runner dies, its simulators die with it'])
META['C27'] = dict(rule='One evaluation is one set of batches from one seed: inputs, options, the logs of every run, and which of them are missing, empty or cut short where. Distinct and '
                   'non-trivial: the hash of all statistics is new and at least five of them were judged.',
                   state='number of runs and sensors, kinds of damage, kind of bad input, options',
                   real=['eval/stats.py, eval/utilities.py, eval/input_parser.py: their real code, run as main', 'numpy, scipy'],
                   stub=['the runs: their logs are written by the harness in the format of the simulator, then damaged as a crash or a full disk leaves them (the logs themselves are under C13 and C22)',
                         'pandas: a small stand-in (sim/py/stub); a call it does not know makes no judgement and is counted as probe.stand_in_gap', 'bokeh: not used by the statistics'],
                   assume=['a number that is cut short within its digits cannot be told from a number: such cuts are not injected', 'the stand-in reads logs as pandas does'])
META['C28'] = dict(rule='One evaluation is one set of batches from one seed: inputs, options, the logs of every run, and which of them are missing, empty or cut short where. Distinct and '
                   'non-trivial: the hash of all that is drawn is new and at least five lines were judged.',
                   state='number of runs and sensors, what is estimated, kinds of damage, kind of bad input',
                   real=['eval/report.py, eval/tab_*.py, eval/utilities.py, eval/input_parser.py: their real code, run as main', 'numpy, scipy'],
                   stub=['the runs: their logs are written by the harness in the format of the simulator, then damaged as a crash or a full disk leaves them',
                         'pandas: a small stand-in (sim/py/stub); a call it does not know makes no judgement and is counted as probe.stand_in_gap',
                         'bokeh: a stand-in that keeps what is drawn; the saved page holds it as JSON. Embedding (--embed) is not run'],
                   assume=['a number that is cut short within its digits cannot be told from a number: such cuts are not injected', 'the stand-in reads logs as pandas does',
                           'an attitude error is the rotation between estimate and truth, taken in any of its four orders'])
