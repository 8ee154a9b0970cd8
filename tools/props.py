NOT_APPLICABLE = {}
REAL = ('Doubles are treated as exact reals over the stated input boxes, every branch outcome is explored as its own path, and each assertion on each path is '
        'discharged by z3 or by polynomial normal form; IEEE rounding is outside the claim and covered only by the native replay of counterexamples. ')
BITS = 'Bit-precise: machine integers are bit-vectors and doubles IEEE floats; every path within the stated bounds is explored and every assertion is discharged by z3. '
PROPS = []


def P(id, title, statement, q, why, files, mech, note=REAL, over=('inputs',)):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note, over=list(over)))


M = 'src/math_physics/math/'
P('M02', 'Quaternion algebra, frame conversion and attitude representations agree',
  'Quaternion products, conjugates and normalisation form the quaternion algebra, and converting a vector with a unit quaternion is a proper rotation whose inverse is the inverse conversion and which composes along products. '
  'The direction-cosine matrix, 3-2-1 Euler angles, axis-angle and two-vector constructions all denote that same rotation: each round trip returns the same rotation, the axis is kept, and the first of two given vectors is turned onto the second, antiparallel ones included.',
  'every quaternion, every unit quaternion, every vector in [-10,10]^3, every rotation angle in [-7,7] rad, Euler angles with pitch away from +-90 deg, every pair of non-zero vectors',
  'The unit tests check a dozen fixed quaternions, mostly rotations about one axis; a sign or index error that vanishes on those points passes.',
  [M + 'quaternion.cpp', M + 'quaternion.hpp'],
  [('products, conjugate, normalisation', M + 'quaternion.cpp'), ('DCM/Euler/axis-angle conversions', M + 'quaternion.cpp'), ('frame conversion', M + 'quaternion.cpp')],
  REAL + 'Branches of the DCM-to-quaternion conversion (largest component) are all explored.')
P('M01', 'Vector and matrix algebra obey their defining identities',
  'Vector sums, inner and outer products, norms, angles and polar conversions, and matrix products, transposes, traces, inverses and elementary rotations satisfy their defining algebraic identities for every operand. '
  'Normalising gives a unit vector in the same direction (a zero vector is left alone), the angle between vectors lies in [0, pi] with the right cosine even for parallel vectors, and angle wrapping only adds multiples of 2 pi.',
  'every vector in [-10,10]^3, every 2x2/3x3 matrix in the box with determinant away from zero, every rotation angle, every angle within +-8 turns for wrapping',
  'The unit tests use small integer vectors and one or two matrices; swapped indices, signs or pivot errors that vanish there survive, and parallel vectors produced by rounding are never tried.',
  [M + 'vector.cpp', M + 'vector_template_functions.hpp', M + 'matrix_template_functions.hpp', M + 'matrix_vector_template_functions.hpp', M + 's2e_math.cpp'],
  [('vector operations', M + 'vector_template_functions.hpp'), ('matrix operations', M + 'matrix_template_functions.hpp'), ('LU inverse', M + 'matrix_vector_template_functions.hpp'), ('angle wrapping', M + 's2e_math.cpp')],
  REAL + 'Pivot choices of the LU decomposition are all explored.')
NI = 'src/math_physics/numerical_integration/'
P('M03', 'Numerical integrators reproduce their stated order on every ODE instance',
  'One step of the fourth-order and the two fifth-order embedded Runge-Kutta integrators equals the Taylor expansion of the solution through the method order, for arbitrary initial state, step size and coefficients of the right-hand side. '
  'The dense-output interpolation passes through both ends of the step and matches the trajectory in between, and the abstract ODE base class gives the same fourth-order step with the right time arguments.',
  'every initial state, step size and coefficient of triangular nonlinear, linear and polynomial-in-time right-hand sides in the boxes, which exercise every elementary differential through the method order',
  'The tests integrate three fixed problems with loose tolerances; a wrong tableau entry changes these by less than the tolerance or only degrades the order.',
  [NI + 'runge_kutta_template.hpp', NI + 'runge_kutta_fehlberg.hpp', NI + 'dormand_prince_5.hpp', 'src/math_physics/math/ordinary_differential_equation_template_functions.hpp'],
  [('step', NI + 'runge_kutta_template.hpp'), ('tableaux', NI + 'dormand_prince_5_implementation.hpp'), ('ODE base class', 'src/math_physics/math/ordinary_differential_equation_template_functions.hpp')])
P('M04', 'Interpolation reproduces the data and the function classes it is built for',
  'Polynomial (Lagrange/Neville-type) interpolation returns the stored values at the nodes and reproduces every polynomial of degree below the number of nodes in between; trigonometric interpolation reproduces every trigonometric polynomial it spans. '
  'The sliding-window orbit interpolation keeps the latest points in order, drops the oldest, refuses data that does not advance, and evaluates each axis independently.',
  'every node value, every polynomial coefficient and query point in the boxes for window sizes up to 9, every sequence of pushes within the step bound',
  'The tests interpolate one sine curve; errors that cancel there (wrong index, wrong denominator at one node) pass.',
  [M + 'interpolation.cpp', 'src/math_physics/orbit/interpolation_orbit.cpp'],
  [('polynomial and trigonometric interpolation', M + 'interpolation.cpp'), ('orbit window', 'src/math_physics/orbit/interpolation_orbit.cpp')],
  over=('inputs', 'histories'))
O = 'src/math_physics/orbit/'
P('M05', 'Keplerian propagation and element conversion solve the two-body problem',
  'Propagating orbital elements gives a position and velocity that satisfy the two-body invariants (vis-viva energy, angular momentum vector, eccentricity vector) of exactly those elements at every time, '
  'the solved eccentric anomaly satisfies Kepler\'s equation, and elements extracted from a position and velocity describe the orbit through that state in every quadrant of node, perigee and anomaly.',
  'every element set and time in the boxes (eccentricity up to 0.9), every elliptic non-equatorial state in the boxes; Kepler residual and epoch on concrete anchors',
  'No unit test covers the orbit module; quadrant errors and convergence failures show up only for particular nodes, perigees or eccentricities.',
  [O + 'kepler_orbit.cpp', O + 'orbital_elements.cpp'],
  [('propagation and Newton solver', O + 'kepler_orbit.cpp'), ('element extraction', O + 'orbital_elements.cpp')],
  REAL + 'The eccentric-anomaly iteration is abstracted by its step equation for the propagation entry and checked by one exact step plus concrete anchors.')
P('M06', 'Relative-orbit models solve Hill\'s equations',
  'The Hill/Clohessy-Wiltshire system matrix is the linearised relative dynamics for the orbit\'s mean motion, and the state transition matrix is its exact flow: identity at time zero, composing along time, commuting with the system matrix, '
  'with each position row differentiating into the matching velocity row, so that it carries any initial relative state to the analytic solution.',
  'every orbit radius, gravity constant, elapsed time and initial relative state in the boxes',
  'No unit test covers the relative-orbit models; a wrong coefficient in one of 36 entries looks plausible in any single simulation.',
  [O + 'relative_orbit_models.cpp'], [('system matrix', O + 'relative_orbit_models.cpp'), ('transition matrix', O + 'relative_orbit_models.cpp')])
T = 'src/math_physics/time_system/'
P('M07', 'Calendar, epoch and GPS time name the same instant',
  'Converting a civil date and time to epoch time and back returns the same fields for every valid date, epoch seconds count civil days without gaps or overlaps, ordering and equality follow the instant, and sums and differences of epoch times are exact with fractions kept in [0,1). '
  'GPS week and seconds and epoch time convert into each other with the 18 s leap offset.',
  'every second from 1970-01-01 to 2100-02-28, every valid calendar field combination in it, every fraction in the box, every pair of epoch times, GPS weeks up to 6000',
  'The tests convert a few dates; month lengths, leap days, carries and borrow of fractions go wrong only on particular dates and values.',
  [T + 'date_time_format.cpp', T + 'epoch_time.cpp', T + 'gps_time.cpp'],
  [('civil calendar', T + 'date_time_format.cpp'), ('epoch arithmetic', T + 'epoch_time.hpp'), ('GPS time', T + 'gps_time.cpp')], note=BITS)
P('M08', 'Geodetic and Earth-fixed positions are inverse and share one local frame',
  'The Earth-fixed position of a latitude, longitude and altitude lies at that altitude along the ellipsoid normal; converting an Earth-fixed position to geodetic coordinates inverts it everywhere including the poles, the equator and every longitude quadrant. '
  'The local topographic frame is right-handed orthonormal with its axes east, north and up along the ellipsoid normal.',
  'every latitude, longitude and altitude in the boxes (forward); a grid of latitudes and altitudes with arbitrary longitude (inverse)',
  'The unit tests use a few mid-latitude points; quadrant mistakes and polar divisions never execute there.',
  ['src/math_physics/geodesy/geodetic_position.cpp'], [('conversion', 'src/math_physics/geodesy/geodetic_position.cpp'), ('local frame', 'src/math_physics/geodesy/geodetic_position.cpp')])
R = 'src/math_physics/randomization/'
P('M11', 'Random numbers follow their stated generators and never stick',
  'Each draw of the basic generator is the next element of the multiplicative congruential sequence scaled into (0,1), for every usable seed of either sign; seeds that would freeze it are refused or never produced. The shuffled generator returns the table entry chosen by the previous draw. '
  'Normal values are the Box-Muller image of an accepted pair scaled by deviation and mean, both values of the pair being used, and a bounded random walk is pushed back inside its limit.',
  'every seed that is not a multiple of the modulus, every draw, every pair of uniform draws, every mean and deviation, every walk state and limit in the boxes',
  'The tests look at sample statistics with loose tolerances, which a lost shuffle, a repeated value or an unscaled second value barely move.',
  [R + 'minimal_standard_linear_congruential_generator.cpp', R + 'minimal_standard_linear_congruential_generator_with_shuffle.cpp', R + 'normal_randomization.cpp', R + 'global_randomization.cpp', R + 'random_walk_template_functions.hpp'],
  [('congruential step', R + 'minimal_standard_linear_congruential_generator.cpp'), ('shuffle', R + 'minimal_standard_linear_congruential_generator_with_shuffle.cpp'), ('Box-Muller', R + 'normal_randomization.cpp'), ('random walk', R + 'random_walk_template_functions.hpp')],
  BITS + 'The Box-Muller and random-walk entries treat doubles as exact reals. ')
P('M09', 'Gravity field is the gradient of its spherical-harmonic potential',
  'The acceleration computed from normalised spherical-harmonic coefficients is the exact gradient, and the partial-derivative matrix the exact symmetric second derivative, of the potential those coefficients define, at every position including the poles and for every harmonic. '
  'Harmonics superpose linearly, those above the chosen degree are left out, and repeated evaluations do not depend on earlier ones.',
  'every single cosine and sine harmonic up to degree 6 (partial derivatives 5), every coefficient, gravity constant and position with radius in [1,3] body radii',
  'The unit tests compare a few positions with a numerical difference; an error confined to one order or one normalisation branch at one degree is below their tolerance or outside their points.',
  ['src/math_physics/gravity/gravity_potential.cpp'], [('V/W recursion, acceleration, partial derivatives', 'src/math_physics/gravity/gravity_potential.cpp')])
A = 'src/math_physics/atmosphere/'
P('M10', 'Air density follows its layered model without gaps, jumps or wrong units',
  'The exponential model gives the density of the layer containing the altitude for every altitude, layer boundaries included, always positive above ground, zero below, and continuous within the rounding of the published table. '
  'The Harris-Priester density swings between the night and day profiles with the angle to the diurnal bulge thirty degrees behind the Sun, equals the tables at their nodes, and stays in kg/m3 and within the table outside its range.',
  'every altitude from -10 to 2000 km in every layer, every longitude and Sun direction, every tabulated node',
  'The tests sample a few altitudes; boundary values, out-of-table altitudes and a wrong digit in one of many layers are not among them.',
  [A + 'simple_air_density_model.cpp', A + 'harris_priester_model.cpp'], [('exponential layers', A + 'simple_air_density_model.cpp'), ('diurnal bulge and tables', A + 'harris_priester_model.cpp')])
P('M12', 'Earth and Moon orientation are the stated sequences of rotations',
  'In simple mode the Earth-fixed frame is the inertial frame turned about the pole by the sidereal angle of the date; in full mode it is precession, then nutation, then rotation by apparent sidereal time, each with its published angles; both are proper rotations at every date. '
  'Sidereal time lies in [0, 2 pi) and is the published polynomial up to whole turns; the Moon frame has its axes along the Earth direction and orbit normal and the principal-axis offsets.',
  'every Julian date from 1900 to 2100 and every sidereal angle, every Moon position and velocity in the box',
  'No unit test covers the rotation models; a swapped order, sign or coefficient of a small angle shifts positions by metres to kilometres and looks plausible.',
  ['src/environment/global/earth_rotation.cpp', 'src/math_physics/planet_rotation/moon_rotation_utilities.cpp', 'src/math_physics/orbit/sgp4/sgp4unit.cpp'],
  [('precession, nutation, rotation', 'src/environment/global/earth_rotation.cpp'), ('Moon frames', 'src/math_physics/planet_rotation/moon_rotation_utilities.cpp'), ('sidereal time', 'src/math_physics/orbit/sgp4/sgp4unit.cpp')])
P('M13', 'Beams, lags, quantization and GNSS names follow their definitions',
  'A Gaussian beam has the width of its Rayleigh length, carries its power and falls off as its Gaussian, alike on both sides; a first-order lag is the backward Euler solution, approaches its input without overshoot and passes it through without time constant; '
  'quantization keeps the multiple of the resolution next to the value toward zero. Every GNSS satellite number has one index of its own and back, other numbers none, and the day after every day of the year and the names of the daily products are right.',
  'every wavelength, waist, distance, gain, step and time constant in the boxes; all 160 satellites; every day of 1901 to 2099; up to 30 quantization steps',
  'Unit tests sample a few identifiers and dates; the beam, lag and quantization are not tested.',
  ['src/math_physics/optics/gaussian_beam_base.cpp', 'src/math_physics/control_utilities/first_order_lag.hpp', 'src/utilities/quantization.cpp', 'src/math_physics/gnss/gnss_satellite_number.cpp', 'src/math_physics/gnss/igs_product_name_handling.hpp'],
  [('beam', 'src/math_physics/optics/gaussian_beam_base.cpp'), ('lag', 'src/math_physics/control_utilities/first_order_lag.hpp'), ('satellite numbers', 'src/math_physics/gnss/gnss_satellite_number.cpp'), ('days', 'src/math_physics/gnss/igs_product_name_handling.hpp')])
U = 'src/utilities/'
CB = 'src/components/base/'
CP = 'src/components/ports/'
P('U01', 'SLIP frames and ring buffers carry every byte string unchanged and in order',
  'SLIP encoding escapes exactly the two reserved bytes, ends the frame once, and decoding gives back any payload, with or without a leading frame mark; decoding arbitrary or truncated input never touches memory outside the data, and bytes after the frame end are ignored. '
  'A ring buffer of n bytes is a first-in-first-out channel for any interleaving of writes and reads with at most n unread bytes, also across its wrap-around, and the two directions of a UART port are independent such channels.',
  'every payload and received byte string up to the length bound, every interleaving of writes and reads up to the step bound with every data byte, length and offset',
  'The repository tests send a few fixed strings; wrap-around, exactly full buffers, escapes next to each other and truncated frames need particular histories or bytes.',
  [U + 'slip.cpp', U + 'ring_buffer.cpp', CP + 'uart_port.cpp'],
  [('SLIP codec', U + 'slip.cpp'), ('ring buffer', U + 'ring_buffer.cpp'), ('UART port', CP + 'uart_port.cpp')], BITS, over=('inputs', 'histories'))
P('U02', 'Telecommand arguments are encoded exactly and in big-endian order',
  'The endian-converting copy reverses exactly the given number of bytes and touches nothing else, and every C2A command argument of integer or floating type is written with its own size, as the big-endian two\'s-complement or IEEE image of its value, leaving the bytes after it alone.',
  'every byte string up to 9 bytes and every value of each of the ten argument types',
  'No unit test covers command encoding; a wrong width or byte order is invisible for small or symmetric values.',
  [U + 'endian.cpp', 'src/setting_file_reader/c2a_command_database.cpp'],
  [('endian copy', U + 'endian.cpp'), ('argument encoding', 'src/setting_file_reader/c2a_command_database.cpp')], BITS)
P('U03', 'On-board computer ports route data to the addressed device only and unchanged',
  'Bytes sent through a UART, I2C or GPIO port of the on-board computer arrive at the component connected to exactly that port (and I2C address and register), in order and unchanged, in both directions; other ports and devices see nothing, unconnected or occupied ports are refused, and requests beyond a buffer are refused rather than truncated. '
  'GPIO components are notified exactly when their line changes.',
  'every data byte, every interleaving of commands and receptions, register runs, connection histories and GPIO level sequences within the step bound',
  'No unit test covers the on-board computer ports; swapped arguments, lost bytes and off-by-one buffer checks show only for particular addresses, lengths and histories.',
  ['src/components/real/cdh/on_board_computer.cpp', CB + 'uart_communication_with_obc.cpp', CB + 'i2c_target_communication_with_obc.cpp', CB + 'gpio_connection_with_obc.cpp', CP + 'i2c_port.cpp', CP + 'gpio_port.cpp'],
  [('port tables', 'src/components/real/cdh/on_board_computer.cpp'), ('UART component side', CB + 'uart_communication_with_obc.cpp'), ('I2C registers', CP + 'i2c_port.cpp'), ('GPIO', CP + 'gpio_port.cpp')],
  BITS + 'Hardware-in-the-loop ports are outside the claim (they need real devices). ', over=('inputs', 'histories'))
P('U04', 'Power ports switch and protect loads by voltage and current',
  'A power port is on exactly when its voltage reaches the component\'s minimum and the load current (consumption over voltage) stays below the limit; it then reports that current. Otherwise it is off and draws nothing; over-current also removes the voltage, so the port stays off until it is supplied again. '
  'A connected port without voltage yet is off, and consumption changes take effect at the next update and never become negative.',
  'every voltage, minimum voltage, consumption, limit and history of voltage and consumption changes within the step bound',
  'No unit test covers power ports; threshold and latch behaviour depends on particular voltage histories.',
  [CP + 'power_port.cpp'], [('switching and protection', CP + 'power_port.cpp')], over=('inputs', 'histories'))
P('U05', 'The C2A on-board computer runs the flight software and routes its data',
  'An on-board computer with C2A flight software starts that software once, before its first run, and then advances its clock and runs its tasks exactly the set number of milliseconds per main routine. Bytes, register values, commands and levels that either side writes to a UART, I2C or GPIO port arrive unchanged and in order at the other side of exactly that port and device; '
  'other ports and devices see nothing, occupied ports are not connected twice, and access to a port that is not connected is refused and has no effect.',
  'every data byte, every port number, register runs, interleavings of sending and receiving from both sides, connection histories and level sequences within the step bound',
  'No unit test covers the C2A on-board computer; an exchanged direction, a register offset by one or a port that is not there shows only for particular ports and histories.',
  ['src/components/real/cdh/on_board_computer_with_c2a.cpp', CB + 'i2c_target_communication_with_obc.cpp', CB + 'gpio_connection_with_obc.cpp', CP + 'i2c_port.cpp', CP + 'uart_port.cpp', CP + 'gpio_port.cpp'],
  [('flight software and ports', 'src/components/real/cdh/on_board_computer_with_c2a.cpp'), ('I2C registers', CP + 'i2c_port.cpp')],
  BITS + 'The flight software itself is not part of the repository; stand-ins record the calls made to it. ', over=('inputs', 'histories'))
CA = 'src/components/real/aocs/'
P('C01', 'Components run at their own period, only while powered, in registration order',
  'The clock generator ticks every registered component once per component step, in order; a component runs its main routine exactly on multiples of its prescaler and its fast update on multiples of its fast prescaler, and only when its power port is on; without power the power-off routine runs instead. '
  'Removed components are ticked no more, and every step that crosses the component period gives the right number of ticks.',
  'every prescaler, fast prescaler, power history, registration and removal history and step count within the bounds',
  'No unit test covers scheduling; off-by-one periods or a wrong power condition appear only for particular prescalers, counts and histories.',
  [CB + 'component.cpp', 'src/environment/global/clock_generator.cpp'],
  [('component tick', CB + 'component.cpp'), ('clock', 'src/environment/global/clock_generator.cpp')], over=('inputs', 'histories'))
P('C02', 'Sensors apply scale factor, bias, noise, range and mounting as stated',
  'The measured value is scale factor times truth plus constant bias, plus white noise of the set deviation, plus the random walk, then clipped to the constant range and to zero beyond the zero range, axis by axis and keeping the sign; inconsistent range settings are repaired as documented. '
  'The gyro measures the body rate, and the magnetometer the geomagnetic field, in the mounted frame, following their own attitude quaternion; the random walk stays around its limit.',
  'every true vector, scale factor matrix, bias, noise draw, walk state, range and mounting in the boxes',
  'No unit test covers the sensors; sign, axis or order errors vanish for identity scale factors, zero bias or identity mounting.',
  [CB + 'sensor_template_functions.hpp', CA + 'gyro_sensor.cpp', CA + 'magnetometer.cpp', 'src/math_physics/randomization/random_walk_template_functions.hpp'],
  [('measurement equation', CB + 'sensor_template_functions.hpp'), ('random walk', 'src/math_physics/randomization/random_walk_template_functions.hpp'), ('mounting', CA + 'gyro_sensor.cpp')])
P('C03', 'A reaction wheel exchanges momentum with the body and respects its limits',
  'The torque on the body is minus the rate of change of the rotor momentum along the mounted axis, and the reported momentum is inertia times speed along that axis. Commands are clipped to the maximum torque, act after the dead time and through the first-order lag, and never drive the speed beyond the speed limit. '
  'With drive or power off the wheel coasts down by its friction polynomial to a stop and transmits no commanded torque; jitter has the stated amplitudes, harmonics and directions.',
  'every mounting, inertia, torque, speed, friction coefficient, lag, dead time, limit and command history within the step bound',
  'No unit test covers the wheel; delay, sign and limit errors need particular histories, mountings or speeds.',
  [CA + 'reaction_wheel.cpp', CA + 'reaction_wheel_ode.cpp', CA + 'reaction_wheel_jitter.cpp'],
  [('wheel', CA + 'reaction_wheel.cpp'), ('rotor dynamics', CA + 'reaction_wheel_ode.cpp'), ('jitter', CA + 'reaction_wheel_jitter.cpp')], over=('inputs', 'histories'))
P('C04', 'Magnetorquers turn commands into moment and torque; interference is added once',
  'The output moment is the scale factor times the command clipped to its per-axis limits plus bias, random walk and white noise; the torque is that moment in the body frame cross the geomagnetic field. A held command gives the same mean moment at every step, and no power means no moment and no torque. '
  'The interference on the magnetometer is the stated polynomial of the present moment, present exactly once however often it is updated.',
  'every mounting, scale factor, limit, bias, noise draw, command, field and interference polynomial up to degree 3 in the boxes, histories within the step bound',
  'No unit test covers the actuator; feedback of noise into the command or a doubled bias grows over steps that a single sample does not show.',
  [CA + 'magnetorquer.cpp', CA + 'mtq_magnetometer_interference.cpp'],
  [('moment and torque', CA + 'magnetorquer.cpp'), ('interference', CA + 'mtq_magnetometer_interference.cpp')], over=('inputs', 'histories'))
P('C05', 'Star and sun sensors report the true direction with noise, delay and exclusions',
  'The star sensor reports the inertial-to-sensor attitude of the stated number of steps ago, refreshed at its output interval, turned by the sight and cross-sight noise; its error flag is set exactly when the Sun, the Moon or the limb of the Earth is inside its exclusion angle or the rate exceeds the limit, judged anew at every step. '
  'The sun sensor reports the Sun direction in its frame with bias and noise on two angles, exactly when the Sun is inside the field of view and the illuminance (power density times cosine, zero from behind) reaches the threshold.',
  'every attitude, mounting, noise draw, body direction and distance, exclusion angle, field of view, shadow and threshold in the boxes; delays and intervals of 1 to 3 steps over 9 steps',
  'No unit test covers these sensors; buffer wrap-around, limb geometry, and detection from the previous step need particular histories and directions.',
  [CA + 'star_sensor.cpp', CA + 'sun_sensor.cpp'],
  [('delay buffer and judgements', CA + 'star_sensor.cpp'), ('sun angles and detection', CA + 'sun_sensor.cpp')], over=('inputs', 'histories'))
P('C06', 'A GNSS receiver gets a fix exactly when enough satellites are in view',
  'In the simple model there is a fix exactly when the antenna looks away from the Earth. In the cone model a satellite counts exactly when it lies in the antenna cone and the Earth does not block the line of sight from the antenna; a fix needs four, and the channel list names exactly these satellites with their distance and antenna-frame angles. '
  'A fix gives the true Earth-fixed position and velocity plus the noise of each axis and the matching geodetic position; without a fix the last one is kept. Week and second of week add up to the time since the GPS epoch.',
  'every receiver and satellite position, attitude, mounting, lever arm, half width and noise draw in the boxes, up to five satellites; dates within 60 days after five dates from 1980 to 2099',
  'No unit test covers the receiver; wrong occlusion or cone geometry only shows for satellites near the limb or the cone edge.',
  [CA + 'gnss_receiver.cpp'], [('visibility', CA + 'gnss_receiver.cpp'), ('measurement', CA + 'gnss_receiver.cpp'), ('GPS time', CA + 'gnss_receiver.cpp')],
  REAL + 'The line-of-sight test is exact for receivers above 6700 km and GNSS orbits above 25000 km from the Earth centre. ', over=('inputs', 'histories'))
P('C07', 'Thrusters push along their axis with torque about the current centre of mass',
  'The thrust is duty times maximum thrust along the normalised thrust direction, and the torque is the lever arm from the present centre of gravity cross the thrust. The duty is clipped to 0 and 1, acts after the dead time and through the first-order lag; magnitude noise scales and direction noise tilts the thrust about a random axis orthogonal to it. '
  'Without power or with zero duty there is no thrust and no torque.',
  'every direction, position, centre of gravity, maximum thrust, duty history, dead time, lag, noise draw and random angle in the boxes',
  'No unit test covers the thruster; lever arm, delay or tilt errors vanish for thrusters at the centre of mass, constant duty or zero noise.',
  ['src/components/real/propulsion/simple_thruster.cpp'], [('thrust and torque', 'src/components/real/propulsion/simple_thruster.cpp')], over=('inputs', 'histories'))
CW = 'src/components/real/power/'
P('C08', 'Battery, charge control and solar panels balance power and energy',
  'The depth of discharge integrates the charge current over the pack capacity, and the battery voltage follows the discharge polynomial. Charge control sets the current that balances generation and load, limited by the constant current and the constant voltage, and an overloaded battery gives its maximum power. '
  'Generated power is efficiency times power density times area times cosine, scaled by the shadow and zero from behind. Scenario tables hold each value until the next line; power ports are connected once and forgotten when closed.',
  'every capacity, polynomial, current history, resistance, limit, generation, Sun direction, efficiency and table in the boxes; port histories of four operations',
  'No unit test covers the power subsystem; sign, unit or branch errors show only for particular balances of generation, load and limits.',
  [CW + 'battery.cpp', CW + 'pcu_initial_study.cpp', CW + 'solar_array_panel.cpp', CW + 'csv_scenario_interface.cpp', CW + 'power_control_unit.cpp'],
  [('battery', CW + 'battery.cpp'), ('charge control', CW + 'pcu_initial_study.cpp'), ('panels', CW + 'solar_array_panel.cpp'), ('scenario', CW + 'csv_scenario_interface.cpp'), ('ports', CW + 'power_control_unit.cpp')], over=('inputs', 'histories'))
CM = 'src/components/real/communication/'
P('C09', 'The link budget adds EIRP, path loss, losses and G/T; visibility gates it',
  'EIRP is transmit power in decibel plus losses and gain, G/T is gain plus losses minus noise temperature in decibel, and pattern gains are those of the nearest table direction. Carrier to noise is EIRP minus free-space loss plus losses plus G/T minus the Boltzmann constant, with gains for the true directions in both antenna frames; margin and maximum bit rate follow from it. '
  'A spacecraft is visible exactly when its elevation exceeds the station limit, and an invisible one has no link.',
  'every geometry, attitude, mounting, power, gain, loss, temperature, frequency, bit rate, requirement, elevation limit and pattern table (up to 3 x 3) in the boxes',
  'No unit test covers communication; swapped rotations, signs of losses or azimuth ranges are invisible for boresight links or isotropic antennas.',
  [CM + 'antenna.cpp', CM + 'antenna_radiation_pattern.cpp', CM + 'ground_station_calculator.cpp', 'src/simulation/ground_station/ground_station.cpp'],
  [('antenna', CM + 'antenna.cpp'), ('pattern', CM + 'antenna_radiation_pattern.cpp'), ('link budget', CM + 'ground_station_calculator.cpp'), ('visibility', 'src/simulation/ground_station/ground_station.cpp')])
CI = 'src/components/ideal/'
P('C10', 'Ideal observers and generators return the truth plus their stated noise',
  'The angular velocity observer reports the body rate through the sensor model, the attitude observer the true attitude turned by its noise angle about a random direction, and the orbit observer position and velocity plus per-axis noise in the inertial or RTN frame. '
  'Force and torque generators output the latest command, given in any of their frames, with magnitude noise added and the direction turned by the noise angle only when something is commanded, report the same vector in every frame, and output nothing without power.',
  'every attitude, rate, orbit, command, command history, standard deviation and noise draw in the boxes',
  'No unit test covers the ideal components; wrong frames or noise geometry are invisible for aligned frames and zero noise.',
  [CI + 'attitude_observer.cpp', CI + 'angular_velocity_observer.cpp', CI + 'orbit_observer.cpp', CI + 'force_generator.cpp', CI + 'torque_generator.cpp'],
  [('observers', CI + 'orbit_observer.cpp'), ('attitude observer', CI + 'attitude_observer.cpp'), ('force', CI + 'force_generator.cpp'), ('torque', CI + 'torque_generator.cpp')], over=('inputs', 'histories'))
P('C12', 'A telescope images bodies, stars and the ground where they truly appear',
  'Each of Sun, Earth and Moon is flagged exactly when inside its own forbidden angle around the line of sight, and is imaged at the tangent projection of its angles, or at -1 outside the field of view. The logged stars are the first stars of the catalogue inside the field of view, in order, with their catalogue data and pixel positions, missing ones -1. '
  'The tracked ground point is the initial sub-satellite point, reported as its angles over the angle per pixel. Catalogue stars lie at their right ascension and declination.',
  'every attitude, mounting, body direction, forbidden angle, field of view below 90 degrees, star direction and ground direction; catalogues of up to 3 stars',
  'No unit test covers the telescope; axis swaps, order or projection errors need particular directions and catalogues.',
  ['src/components/real/mission/telescope.cpp', 'src/environment/global/hipparcos_catalogue.cpp'],
  [('imaging', 'src/components/real/mission/telescope.cpp'), ('catalogue', 'src/environment/global/hipparcos_catalogue.cpp')])
DA = 'src/dynamics/attitude/'
P('D01', 'Attitude propagation integrates Euler\'s equation with wheels, exactly on time',
  'Every derivative satisfies inertia times angular acceleration = torque - rate x (inertia times rate + wheel momentum) - inertia rate times rate, with the quaternion turning at the body rate; the cantilever variant conserves total momentum with the damped oscillator. A propagation applies fourth order Runge-Kutta steps of at most the propagation step that together end exactly at the end time, normalises the quaternion, '
  'and reports momentum (body, total, inertial) and kinetic energy of the new state. A disabled attitude does not move.',
  'every state, inertia tensor, torque, wheel momentum, damping and frequency for the derivative; every rate, torque or attitude for a step; up to 4 steps over two intervals',
  'No unit test covers attitude propagation; errors in a stage, in the last partial step or in inertia changes need particular step ratios, inertia histories and states.',
  [DA + 'attitude_rk4.cpp', DA + 'attitude.cpp', DA + 'attitude_with_cantilever_vibration.cpp', DA + 'ode_attitude_with_cantilever_vibration.hpp'],
  [('rigid body', DA + 'attitude_rk4.cpp'), ('momentum', DA + 'attitude.cpp'), ('cantilever', DA + 'ode_attitude_with_cantilever_vibration.hpp'), ('cantilever propagation', DA + 'attitude_with_cantilever_vibration.cpp')], over=('inputs', 'histories'))
P('D02', 'Controlled attitude points its main and sub directions at their targets',
  'The attitude matrix is a rotation that carries the main target direction onto the main body direction and the sub target direction into the half plane of the sub body direction. Targets are the Sun, Earth centre, velocity, ground speed, orbit normal and surface point. Equal modes, missing control or directions within 30 degrees leave the attitude alone. '
  'The reported rate is the rotation since the previous propagation, whatever the quaternion signs, and the torque is inertia times angular acceleration.',
  'every target and body direction, position, velocity, Earth rotation angle, quaternion sign and interval in the boxes',
  'No unit test covers it; swapped axes, quaternion sign flips and near-parallel directions need particular geometry.',
  [DA + 'controlled_attitude.cpp'], [('pointing', DA + 'controlled_attitude.cpp')], over=('inputs', 'histories'))
DT = 'src/dynamics/thermal/'
P('D05', 'Thermal nodes balance conduction, radiation, sunlight, Earth heat and heaters',
  'Each diffusive node changes at (conduction + fourth power radiation + solar, albedo, Earth infrared, internal and heater load) over capacity, evaluated at every Runge-Kutta stage; boundary nodes stay. Sunlight scales with the cosine, Earth heat with the view factor of its distance and tilt. Internal loads interpolate a table repeating with its period for any order of times. '
  'Heaters switch on below the lower and off above the upper threshold, otherwise stay.',
  'every temperature, coupling, load, surface, flux and direction in the boxes, tables of 2 to 4 points over 3 periods, heater histories of 3 steps',
  'No unit test covers the thermal model; stage, period and hysteresis errors need particular times and histories.',
  [DT + 'temperature.cpp', DT + 'node.cpp', DT + 'heatload.cpp', DT + 'heater_controller.cpp', DT + 'heater.cpp'],
  [('balance', DT + 'temperature.cpp'), ('surfaces', DT + 'node.cpp'), ('table', DT + 'heatload.cpp'), ('heater', DT + 'heater_controller.cpp')], over=('inputs', 'histories'))
DO = 'src/dynamics/orbit/'
P('D03', 'Every orbit propagator follows its equation of motion up to the requested time',
  'Runge-Kutta applies central gravity plus the disturbance acceleration; Encke integrates the exact difference to a Kepler reference and renews that reference without displacing the orbit; both cover each interval in steps of at most the integration width ending at its end. Kepler and SGP4 use the current date (SGP4 in minutes since the element epoch, kilometres to metres). '
  'The relative orbit follows Hill\'s equations in the moving LVLH frame, its inertial velocity including the frame rotation. A time series file is interpolated at every date between its first and last record and held outside. Disabled orbits do not move.',
  'every state, acceleration, gravity constant, step ratio, date, element epoch and relative state in the boxes; files of 6 records of arbitrary cubic motion with up to two later dates; up to 4 steps per interval',
  'No unit test covers the propagators; time errors, rectification and window handling need particular histories.',
  [DO + 'rk4_orbit_propagation.cpp', DO + 'encke_orbit_propagation.cpp', DO + 'kepler_orbit_propagation.cpp', DO + 'sgp4_orbit_propagation.cpp', DO + 'relative_orbit.cpp', DO + 'time_series_file_orbit_propagation.cpp'],
  [('Runge-Kutta', DO + 'rk4_orbit_propagation.cpp'), ('Encke', DO + 'encke_orbit_propagation.cpp'), ('relative', DO + 'relative_orbit.cpp'), ('file', DO + 'time_series_file_orbit_propagation.cpp'), ('SGP4', DO + 'sgp4_orbit_propagation.cpp')], over=('inputs', 'histories'))
P('D04', 'Orbit frames, forces and the update of the dynamics agree with each other',
  'The LVLH quaternion carries the radial, transverse and normal directions of the orbit to the x, y and z axes. The Earth fixed position turns with the Earth, the Earth fixed velocity is relative to the turning Earth, the geodetic position is that of the Earth fixed one, and the simulation stops below the surface. '
  'Forces in either frame add force over mass to the acceleration in any order and are cleared together with the torques. Attitude, orbit and temperature are each propagated to the current time exactly when their flag is set, and the body frame velocity uses the new attitude and orbit.',
  'every orbit frame, speed, Earth rotation, position, velocity, attitude, force, mass and flag combination in the boxes',
  'No unit test covers these; frame and order errors vanish for aligned frames and single forces.',
  [DO + 'orbit.cpp', DO + 'orbit.hpp', 'src/dynamics/dynamics.cpp', 'src/dynamics/dynamics.hpp'],
  [('frames', DO + 'orbit.cpp'), ('forces', DO + 'orbit.hpp'), ('update', 'src/dynamics/dynamics.cpp')])
GE, LE = 'src/environment/global/', 'src/environment/local/'
P('E01', 'Sunlight and eclipses follow the geometry of the sun and every shadow source',
  'The solar pressure is the solar constant over the speed of light, falling with the squared distance from the sun. The shadow coefficient is the product over all shadow sources of the part of the solar disk left visible: 1 outside, 0 in the umbra, the ring around an annular eclipse, disk minus lens in the penumbra, from apparent radii and the angle seen at the spacecraft; an orbit around the sun has none. '
  'Pressure, power density and eclipse flag use it. Settings register the center body and each listed source; a disabled environment keeps its values.',
  'every sun distance, apparent radius and deviation of up to two sources, along each axis; up to two listed sources',
  'No unit test covers the environment; eclipse cases and multiple sources need particular geometry.',
  [LE + 'solar_radiation_pressure_environment.cpp'], [('shadow', LE + 'solar_radiation_pressure_environment.cpp'), ('pressure', LE + 'solar_radiation_pressure_environment.cpp')])
P('E02', 'Simulation time advances uniformly and triggers each process at its interval',
  'Elapsed time, Julian date and ephemeris time advance by exactly one step per update from their start, with sidereal time, decimal year and calendar date of that same date. Attitude, orbit, thermal, component and log flags are each raised once per interval (rounded up to whole steps) and only then, the first state is logged, and the simulation finishes at the first time behind its end. '
  'The calendar date is the Gregorian date of the Julian date with seconds in [0, 60).',
  'every step, interval up to 4 steps, start date and end time over 9 updates; every second of a day, every day of two years, both sides of every month of four years',
  'No unit test covers the simulation time; calendar and interval errors need particular dates and ratios.',
  [GE + 'simulation_time.cpp', 'src/math_physics/orbit/sgp4/sgp4ext.cpp'], [('schedule', GE + 'simulation_time.cpp'), ('calendar', GE + 'simulation_time.cpp')], over=('inputs', 'histories'))
P('E03', 'Celestial states come from the ephemeris and reach every frame consistently',
  'Every selected body has the ephemeris state of the current time about the centre in metres, its gravity constant, radii and mean radius, by id and by name; the state relative to another body is the difference; unknown ids are refused; a copy is equal and independent. The Earth frame has the current date and the lunar frame the state of the Moon seen from the Earth. '
  'The local positions and velocities from the spacecraft are the differences to its orbit, in the body frame rotated and with the velocity of the rotating frame.',
  'up to four bodies in several orders, every ephemeris state, constant, date, attitude, rate and orbit state in the boxes',
  'No unit test covers the celestial information (it needs CSPICE); unit, order, frame and id errors are invisible in ordinary output.',
  [GE + 'celestial_information.cpp', GE + 'moon_rotation.cpp', LE + 'local_celestial_information.cpp'],
  [('ephemeris', GE + 'celestial_information.cpp'), ('lunar frame', GE + 'moon_rotation.cpp'), ('local frame', LE + 'local_celestial_information.cpp')])
P('E04', 'The local environment gives each model the current place, date and sunlight',
  'Density is the selected model at the current altitude or position, date and solar activity, the same value being returned, kept and logged with its relative noise. Albedo and infrared radiation scale with the spacecraft\'s view of the Earth and the sunlight of this step. The magnetic field is the model plus white noise and random walk of this spacecraft alone, rotated into the body frame. '
  'Earth models run only around the Earth, celestial positions and sunlight before what depends on them, and disabled models keep still.',
  'every model output, altitude, position, sun direction, Earth rotation, flux, noise draw, attitude and flag combination in the boxes',
  'No unit test covers the local environment; frame, order and noise sharing errors need several spacecraft or particular settings.',
  [LE + 'atmosphere.cpp', LE + 'earth_albedo.cpp', LE + 'earth_infrared.cpp', LE + 'geomagnetic_field.cpp', LE + 'local_environment.cpp'],
  [('density', LE + 'atmosphere.cpp'), ('radiation', LE + 'earth_albedo.cpp'), ('field', LE + 'geomagnetic_field.cpp'), ('order', LE + 'local_environment.cpp')], over=('inputs', 'histories'))
P('E05', 'GNSS satellite positions and clocks come from the records around the time',
  'At every time the interpolation holds nine consecutive SP3 records of every satellite, in metres and microseconds, around the current time, shifted only at the start of the first used file or the end of the data; it catches up over any interval and never reads behind the data. Position and clock use the time since the reference epoch and the orbital period; '
  'unknown satellites, earlier times and disabled or mismatching data give zero. The inertial position is the Earth fixed one rotated back.',
  'every start time, two updates by up to three records or one update by days, positions, clocks and Earth rotations, two files of 12 epochs',
  'No unit test covers GNSS satellites; window errors need particular times, day changes and the end of the data.',
  [GE + 'gnss_satellites.cpp', 'src/math_physics/orbit/interpolation_orbit.cpp'],
  [('window', GE + 'gnss_satellites.cpp'), ('orbit interpolation', 'src/math_physics/orbit/interpolation_orbit.cpp')], over=('inputs', 'histories'))
P('E06', 'The geomagnetic field is the IGRF expansion of the date, turned to inertial',
  'Each term of the expansion gives the gradient of its Schmidt-normalised harmonic, north, east and down, at every place; terms add; the coefficients follow the straight line between the columns of the file and the rate beyond the last, down to its last term. '
  'Geodetic places are converted on the ellipsoid, the inertial field is the local one turned by colatitude, longitude and sidereal angle, and no call depends on the places asked for before.',
  'every colatitude, longitude, radius, coefficient, rate and date for each term up to degree 2, every direction up to degree 4; files with one to five columns; all pairs of calls; twelve places in the inertial frame',
  'No unit test covers the field; a wrong normalisation, sign, column or frame gives a field of the right size.',
  ['src/math_physics/geomagnetic/igrf.cpp', 'src/math_physics/orbit/sgp4/sgp4ext.cpp'],
  [('expansion', 'src/math_physics/geomagnetic/igrf.cpp'), ('rotation', 'src/math_physics/orbit/sgp4/sgp4ext.cpp')], over=('inputs', 'histories'))
DI = 'src/disturbances/'
P('F01', 'Surface forces push away from their source and turn about the centre of mass',
  'Solar radiation on every lit surface absorbs and reflects its light (specular and diffuse parts), air drag follows the free molecular pressure and shear of its speed ratio, both with the cosine of the true incidence, also for exactly facing surfaces; surfaces turned away feel nothing. Forces and torques add over the surfaces about the current centre of mass. '
  'The source is the Sun with the eclipsed pressure, or the velocity relative to the rotating air with the current density, in the body frame.',
  'every incidence, area, optical property, pressure, density, speed, temperature, molar mass, centre of mass, attitude and Earth rotation in the boxes; up to two surfaces',
  'No unit test covers the disturbances; sign, incidence and unit errors need particular geometry.',
  [DI + 'surface_force.cpp', DI + 'solar_radiation_pressure_disturbance.cpp', DI + 'air_drag.cpp', 'src/simulation/spacecraft/structure/surface.cpp'],
  [('surfaces', DI + 'surface_force.cpp'), ('sunlight', DI + 'solar_radiation_pressure_disturbance.cpp'), ('air', DI + 'air_drag.cpp')])
P('F02', 'Gravity gradient and magnetic torques follow the current position and field',
  'The gravity gradient torque is 3 mu / r^5 times r x I r for the centre body seen in the body frame and the current inertia. The magnetic torque is the moment of this spacecraft (its current constant part plus its own white noise and random walk) times the field in tesla. Neither adds a force, and a disabled disturbance is zero.',
  'every position, inertia tensor, gravity constant, moment, field and noise draw in the boxes; two spacecraft over three updates',
  'No unit test covers the disturbances; noise shared between spacecraft and changed settings need histories.',
  [DI + 'gravity_gradient.cpp', DI + 'magnetic_disturbance.cpp', 'src/simulation/spacecraft/structure/residual_magnetic_moment.cpp'],
  [('gravity gradient', DI + 'gravity_gradient.cpp'), ('magnetic', DI + 'magnetic_disturbance.cpp')], over=('inputs', 'histories'))
P('F03', 'Gravity disturbances act in the inertial frame with the fields of their bodies',
  'Third bodies attract the spacecraft minus what they do to the centre body, summed over the selected ones. The Earth and Moon fields are evaluated at the Earth or Moon fixed position with the degree of the coefficients that could be read, the constants of their model and no central term, and turned back into the inertial frame. Only accelerations result.',
  'every position, gravity constant, rotation and field in the boxes; up to two third bodies; degrees on both sides of every limit, with and without a coefficient file',
  'No unit test covers these; frame errors, missing files and degrees beyond the model need particular settings.',
  [DI + 'third_body_gravity.cpp', DI + 'geopotential.cpp', DI + 'lunar_gravity_field.cpp'],
  [('third bodies', DI + 'third_body_gravity.cpp'), ('Earth', DI + 'geopotential.cpp'), ('Moon', DI + 'lunar_gravity_field.cpp')])
P('F04', 'Disturbances are updated when due and summed completely',
  'The centre body decides which disturbances exist, each wired to the current structure and settings. At every update each enabled disturbance is recomputed when position or, for attitude dependent ones, attitude changed, and keeps its value otherwise; the totals of force, torque and acceleration are the sums over all disturbances, enabled or not, and all are logged.',
  'every output, enabling and attitude dependence of three disturbances over three updates with any flags; three kinds of centre body',
  'No unit test covers the disturbances; stale or double counted values need histories of flags.',
  [DI + 'disturbances.cpp', DI + 'disturbance.hpp'], [('totals', DI + 'disturbances.cpp'), ('flags', DI + 'disturbance.hpp')], over=('inputs', 'histories'))
SM = 'src/simulation/'
P('S01', 'Relative information describes the target seen from the reference',
  'For every pair of registered spacecraft, relative position, velocity and distance are the differences target minus reference in the inertial frame; those in the RTN frame are the motion seen in the frame that turns with the reference orbit; the relative attitude quaternion converts from the reference body frame to the target body frame. '
  'The tables grow and shrink with the registered spacecraft and every log column holds the pair and quantity of its name.',
  'up to three spacecraft (five for the columns of the log) with any position, velocity and attitude, in two orders of registration, with removal of the last one',
  'No unit test covers it; order and frame errors vanish for aligned or identical spacecraft.',
  [SM + 'multiple_spacecraft/relative_information.cpp'], [('relative motion', SM + 'multiple_spacecraft/relative_information.cpp')])
P('S02', 'Every step a spacecraft moves under exactly the loads of that step',
  'In each update a spacecraft evaluates its environment and disturbances and runs its components once (on the component flag), and then propagates with the sum of this step\'s disturbance and component forces, torques and accelerations, nothing left from earlier steps. '
  'A new spacecraft wires structure, environment, dynamics and disturbances of its own id together, registers itself as reference, logs all parts, and removes the registration and releases each part when destroyed.',
  'three updates with any attitude, mass, loads and flags; every id of three, with and without relative information',
  'No unit test builds a spacecraft; carried over or doubled loads need several steps.',
  [SM + 'spacecraft/spacecraft.cpp', 'src/dynamics/dynamics.cpp', SM + 'spacecraft/installed_components.cpp'],
  [('step', SM + 'spacecraft/spacecraft.cpp'), ('loads', 'src/dynamics/dynamics.hpp')], over=('inputs', 'histories'))
P('S03', 'Monte Carlo runs randomize the set parameters with the set distributions',
  'A case runs as often as set (once when disabled). Each randomized value follows its type: uniform between the limits or normal about the mean per axis, radius and angle in circles, uniform over a zone of the sphere, around a mean direction with uniform azimuth, quaternions uniform over all rotations or by a normal angle about a uniform axis. '
  'It reaches only the object and parameter of its name, keeps until randomized again, and is not applied when disabled; missing values, doubled definitions and doubled objects are refused.',
  'every mean, deviation, limit and draw in the boxes for each type; any number of executions; two or three parameters and objects',
  'No unit test covers the Monte Carlo simulation; a wrong distribution gives plausible values in every single run.',
  [SM + 'monte_carlo_simulation/initialize_monte_carlo_parameters.cpp', SM + 'monte_carlo_simulation/initialize_monte_carlo_simulation.cpp', SM + 'monte_carlo_simulation/monte_carlo_simulation_executor.cpp', SM + 'monte_carlo_simulation/simulation_object.cpp'],
  [('distributions', SM + 'monte_carlo_simulation/initialize_monte_carlo_parameters.cpp'), ('executions', SM + 'monte_carlo_simulation/monte_carlo_simulation_executor.cpp'), ('objects', SM + 'monte_carlo_simulation/simulation_object.cpp')], over=('inputs', 'histories'))
P('S04', 'Settings and data files are read completely and in the right place',
  'Each number, switch, vector, table and file name of a settings file arrives under its own key and index. Each record of an SP3 orbit, ANTEX antenna or Bias-SINEX file, star catalogue, gravity coefficient file, C2A command database or WINGS operation file arrives once, in its own place, sign and unit, down to the end of the file. '
  'Blank or missing data are never taken from elsewhere, reading ends at the end of a file cut short, a coefficient file with missing terms is not used, and command arguments are encoded at the size of their type, most significant byte first.',
  'symbolic numbers in every field; SP3 files of up to two epochs and 18 satellites in every mode; catalogues of up to four stars; three antennas and three biases; degrees up to four with every shorter file; operation files of four lines of eleven kinds; databases of three lines; every argument type',
  'The unit tests read one well-formed file of a few of these formats; misplaced columns and short files give plausible numbers.',
  ['src/setting_file_reader/initialize_file_access.cpp', 'src/math_physics/gnss/sp3_file_reader.cpp', 'src/environment/global/hipparcos_catalogue.cpp', 'src/disturbances/geopotential.cpp', 'src/disturbances/lunar_gravity_field.cpp',
   'src/setting_file_reader/c2a_command_database.cpp', 'src/setting_file_reader/wings_operation_file.cpp', 'src/components/real/communication/wings_command_sender_to_c2a.cpp'],
  [('settings', 'src/setting_file_reader/initialize_file_access.cpp'), ('SP3', 'src/math_physics/gnss/sp3_file_reader.cpp'), ('antennas', 'src/math_physics/gnss/antex_file_reader.cpp'), ('biases', 'src/math_physics/gnss/bias_sinex_file_reader.cpp'), ('stars', 'src/environment/global/hipparcos_catalogue.cpp'), ('coefficients', 'src/disturbances/geopotential.cpp'),
   ('commands', 'src/setting_file_reader/c2a_command_database.cpp'), ('operation', 'src/components/real/communication/wings_command_sender_to_c2a.cpp')],
  REAL + 'Text files are concrete text with symbolic numbers in the fields; the inih parser and std::regex are replaced by a map and a list split at commas. ')
P('S05', 'A simulation runs step by step and logs each step once',
  'A case builds its logger and global environment from its settings, runs to the end time, and each step logs when flagged, advances time, celestial bodies and GNSS satellites and then the simulation objects. '
  'The log file has one header with the columns of every enabled loggable in order of registration and one row per logged step with their values in the same columns, each row before time moves on; disabled ones leave no column.',
  'up to four steps with every pattern of log output; three loggables each enabled or not; any number of spacecraft and ground stations',
  'No unit test runs a simulation case; shifted columns or rows look like data.',
  [SM + 'case/simulation_case.cpp', 'src/environment/global/global_environment.cpp', 'src/logger/logger.cpp'],
  [('main loop', SM + 'case/simulation_case.cpp'), ('global environment', 'src/environment/global/global_environment.cpp'), ('log file', 'src/logger/logger.cpp')], over=('inputs', 'histories'))
P('S06', 'Every log column holds the quantity of its name',
  'For each component, disturbance, dynamics, environment and ground object the log header has as many columns as its values, no name twice, and each column holds the quantity, frame, axis and unit that its name says. '
  'Switched off or missing parts (jitter, stars, boundary nodes, bodies, satellites) leave neither name nor value, and the time of day is never later than the simulated time and at most 1 ms earlier.',
  'any values within 1000 of each of 40 loggable classes; component ids; zero to three bodies, stars, nodes and spacecraft; the 32 GPS satellites; dates with symbolic parts',
  'No unit test reads a log; swapped values or names stay unnoticed in every run.',
  ['src/logger/log_utility.hpp', DO + 'orbit.cpp', DA + 'attitude.cpp', DT + 'temperature.cpp', GE + 'celestial_information.cpp', GE + 'gnss_satellites.cpp', GE + 'simulation_time.cpp', LE + 'geomagnetic_field.cpp', 'src/components/real/aocs/gnss_receiver.cpp', 'src/components/real/mission/telescope.cpp'],
  [('writers', 'src/logger/log_utility.hpp'), ('components', 'src/components/real/aocs/gnss_receiver.cpp'), ('models', DO + 'orbit.cpp'), ('environment', GE + 'celestial_information.cpp')],
  REAL + 'Numbers are compared as printed values before rounding to the printed digits. ')
P('S07', 'Every setting reaches the model parameter that it names',
  'Each component, orbit, attitude, structure, environment, disturbance, ground station and thermal model is built with the value of its own key in its own file and section, in the unit the model works in (degrees to radians, rates to currents, delays to steps), '
  'with the mounting, identifier, clock, power port and environment it was asked for. A model is calculated and logged exactly if the file says so, and unknown names select the documented default.',
  'every value of every number in the settings of 45 models; every switch; prescalers 0 to 3; identifiers 0 and 12; tables of two or three rows; three ground stations',
  'Tests construct a few objects directly; swapped keys, units or sections give plausible parameters.',
  ['src/components/real/aocs/star_sensor.cpp', 'src/components/real/aocs/reaction_wheel.cpp', 'src/components/real/power/battery.cpp', 'src/components/real/communication/antenna.cpp', 'src/dynamics/orbit/initialize_orbit.cpp',
   'src/dynamics/attitude/initialize_attitude.cpp', SM + 'spacecraft/structure/initialize_structure.cpp', SM + 'ground_station/ground_station.cpp', 'src/environment/local/atmosphere.cpp', 'src/disturbances/air_drag.cpp', DT + 'temperature.cpp'],
  [('sensors', 'src/components/real/aocs/star_sensor.cpp'), ('actuators', 'src/components/real/aocs/reaction_wheel.cpp'), ('power and communication', 'src/components/real/power/battery.cpp'),
   ('vehicle', 'src/dynamics/orbit/initialize_orbit.cpp'), ('surroundings', 'src/environment/local/atmosphere.cpp'), ('ground and heat', SM + 'ground_station/ground_station.cpp')],
  REAL + 'The settings file is an arbitrary map from file, section and key to values (decoding of text: S04). ')
P('S08', 'Each spacecraft is assembled from its own files and the shared clock',
  'Structure, local environment, dynamics and disturbances of a spacecraft are built from the files that its own entry in the case names, and the files used are kept with the log. The orbit, attitude and thermal integrators get their own step of the shared clock, its epoch, the gravity constant of the central body, the inertia of the structure and the light sources of this spacecraft; '
  'the body-frame velocity is valid from the first moment. Exactly the disturbances that exist around the central body act, on this spacecraft\'s surfaces, centre of gravity and residual moment, and Earth\'s field and air are off elsewhere.',
  'each of three spacecraft around the Earth, the Moon, Mars and the Sun; every mass, inertia, step time, date, attitude and switch',
  'No unit test builds a spacecraft from settings; a part of another spacecraft or a step of another integrator gives plausible results.',
  [SM + 'spacecraft/structure/structure.cpp', 'src/environment/local/local_environment.cpp', 'src/dynamics/dynamics.cpp', 'src/disturbances/disturbances.cpp'],
  [('dynamics', 'src/dynamics/dynamics.cpp'), ('environment', 'src/environment/local/local_environment.cpp'), ('disturbances', 'src/disturbances/disturbances.cpp'), ('structure', SM + 'spacecraft/structure/structure.cpp')],
  REAL + 'The Init* functions of the parts are recorded (S03, S05 and S07 decide them). ')
