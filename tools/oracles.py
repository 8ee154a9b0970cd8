"""Per property: the independent specification the code is compared with (used by tools/design.py)."""
O = {
 'M01': 'textbook identities written per component in the harness (sums of products, A*inv(A)=I, cosine of the angle, wrapped angle = angle - 2 pi n)',
 'M02': 'the rotation matrix of the unit quaternion; every representation is turned into that matrix and compared entry by entry',
 'M03': 'the exact flow of polynomial systems (rooted trees up to the order), so every coefficient of every tableau enters',
 'M04': 'the polynomial / trigonometric polynomial the nodes were taken from; a list model for the sliding window',
 'M05': 'energy, angular momentum and eccentricity vectors of the given elements; the residual of Kepler\'s equation',
 'M06': 'the Hill equations: A, exp(At) by its differential equation, composition and initial value',
 'M07': 'Gregorian day count by integer arithmetic in the harness',
 'M08': 'the closed formula geodetic -> ECEF, and local frames as derivatives of it',
 'M09': 'the gradient of each solid harmonic written out by the recursion-free definition (real and imaginary parts of (x+iy)^m times Legendre derivatives)',
 'M10': 'the layer formulas with the published table values; continuity at every boundary',
 'M11': 'the congruential recurrence modulo 2^31-1 in 64-bit arithmetic; polar Box-Muller',
 'M12': 'products of elementary rotations by the published angle polynomials',
 'U01': 'SLIP written as a byte-wise state machine; the ring buffer as an unbounded stream with read and write positions',
 'U02': 'big-endian concatenation of the bytes of the value',
 'U03': 'one array per device and port; only the addressed one may change',
 'U05': 'queues and register tables in the harness; counters in the stand-ins for the flight software',
 'U04': 'switch state, current = consumption / voltage and over-current rule as a table over the history',
 'C01': 'the set of counts divisible by the prescaler, per component, with the power state of that step',
 'C02': 'clip(scale * truth + bias + noise + walk) written per axis',
 'C03': 'angular momentum balance of rotor and body; dead time as an explicit list of earlier commands; bilinear transform of the resonance filter',
 'C04': 'clip, scale, bias and noise of the command; cross product with the field; polynomial of the command for interference',
 'C05': 'vectors turned by the attitude; delay and output interval as a list of earlier samples; angle comparisons by inner products',
 'C06': 'visibility by the line-of-sight / antenna cone conditions per satellite written with inner products; GPS time from the Gregorian day count',
 'C07': 'thrust = duty * magnitude along the axis, torque = (r - cg) x F; dead time as a list',
 'C08': 'energy integral of the battery, square-root law of the charge control, cosine law of the panels',
 'C09': 'the sum in decibel of the link equation and bilinear interpolation of the table',
 'C10': 'truth plus the drawn noise, angle and axis of noise rotations; expressed in inertial, body and RTN frames',
 'C12': 'pinhole / angle projection of the direction in the component frame',
 'D01': 'Euler\'s equation with wheel momentum, integrated by the classical fourth-order formula in the harness; remaining time after every call',
 'D02': 'the columns of the matrix handed to the quaternion conversion; finite rotation between two attitudes for the rate',
 'D03': 'two-body, J2, Hill and free motion right hand sides with the same integrator; cubic motion for interpolated files',
 'D04': 'orthonormal frame of position and velocity; order of the calls in one update',
 'D05': 'heat balance of each node and its Runge-Kutta step; periodic piecewise linear tables; hysteresis of the heater',
 'E01': 'area of the intersection of two discs, and the total/annular/none regions',
 'E02': 'elapsed time = steps * step width; each flag true at the multiples of its interval; Gregorian calendar',
 'E03': 'ephemeris values * 1000, differences to the spacecraft, turned by its attitude and body rate',
 'E04': 'calls of the models with the current arguments; noise by the drawn values',
 'E05': 'the records closest to the time over the two files joined; index = satellite order',
 'F01': 'specular/diffuse/absorbed momentum of a plate; free molecular drag coefficients; r x F',
 'F02': '3 mu/r^5 r x I r ; m x B',
 'F03': 'third body acceleration in the spacecraft frame, gravity field output turned back to the inertial frame',
 'F04': 'the sum of the latest value of each disturbance',
 'S01': 'differences of states; transport theorem with w = h/r^2; q_target * conj(q_reference)',
 'S02': 'recorded order of calls and totals per step',
 'S03': 'each distribution as a function of its draws; registration of parameters by name',
 'S04': 'the table of values the file was written from (numbers in the text are symbolic tokens)',
 'S05': 'recorded calls of a case per step; one line per log flag with the enabled loggables in order',
 'S06': 'the state variable each column is named after (tokens in the text carry the symbolic value)',
 'M13': 'the closed formulas, the lag equation and the calendar, written out',
 'E06': 'closed associated Legendre functions, their derivatives and the rotation, written out independently of the recursions',
 'S08': 'what each recorded part must be given: own files, own integrator step, own structure',
 'S07': 'the symbolic value stored under the documented key, in the documented unit',
}
