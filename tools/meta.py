#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json are written from this table:  python3 tools/meta.py
A property is claimed when checks/<id>.py exists and it is not in NA."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAMPLED = 'The tests evaluate a few fixed strengths, radii and rows of points and compare to 2-7 decimals; '


def P(i, title, statement, text, why, files, mech, over=('inputs',), note=''):
    return dict(id=i, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=['wiz/%s.py' % f for f in files], mechanism=[dict(name=n, where='wiz/' + w) for n, w in mech]), _note=note)


PROPS = [
    P('C01', 'Induced velocity is linear in the strength and additive over elements',
      'For every vortex or doublet element (ring, cylinder of tangential or longitudinal vorticity, finite cylinder, root vortex, doublet, doublet line, skewed elements, point vortex, self-similar field) the induced velocity is proportional to its strength, strengths add, and zero strength induces zero velocity. '
      'For collections of rings, of straight or skewed cylinders (any number of rotors and concentric layers, any centres) or of point vortices, the velocity is exactly the sum of the velocities of the members, each evaluated at the point relative to its own centre with its own strength and radius, whatever their order. '
      'This holds for Cartesian and polar output, with and without regularisation and with the ground images included.',
      'all real strengths, coefficients, control points, radii, centres and skew tangents; collections of up to 3 members, 2x2 cylinders',
      SAMPLED + 'no test varies the strength or compares a collection with its members.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'SelfSimilar'],
      [('collections loop over the members', 'VortexCylinder.py:vcs_tang_u, vcs_longi_u; VortexCylinderSkewed.py:svcs_tang_u, svcs_longi_u; VortexRing.py:rings_u; VortexPoint.py:vps_u')],
      over=('inputs', 'configurations')),
    P('C02', 'Velocity fields are divergence-free and irrotational off the vorticity',
      'Away from its own vorticity, every induced field (ring in its three formulations, semi-infinite and finite tangential cylinder, doublet, semi-infinite and finite, straight and skewed doublet line, point vortex) has zero divergence and zero curl. '
      'The open elements (semi-infinite line, root vortex, longitudinal and skewed cylinders) have zero divergence, and the curl of a semi-infinite line is exactly that of a filament whose vorticity leaves its end isotropically. '
      'Smoothed point vortices have zero divergence everywhere.',
      'every control point off the singular set (stated margins), every strength, radius, length, skew, moment and position',
      SAMPLED + 'no test looks at derivatives of a field.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint'],
      [('closed-form velocities', 'VortexRing.py, VortexCylinder.py, VortexDoublet.py, VortexLine.py, VortexPoint.py'), ('quadratures over the rim', 'VortexCylinderSkewed.py:svc_tang_u_polar, svc_longi_u_polar')]),
    P('C03', 'Elements built from one another agree with each other',
      'The different formulations of one element give the same velocity: the ring formulations, the guarded and unguarded semi-infinite cylinder, the straight line and the general line along the axis, the polar and Cartesian doublet and doublet line. '
      'A cylinder is a continuous row of rings (its velocity changes along z at the rate of a ring whose circulation is the sheet strength), a finite cylinder is the difference of two semi-infinite ones, a doublet line is a continuous row of doublets (start and end), and the numerical doublet lines are the sum of equally spaced doublets. '
      'The cylinder with far-field approximation is the exact cylinder inside of the cut-off radius and the equivalent doublet line (strength times rotor area) outside of it.',
      'every control point off the singular set, every strength, radius, position, length, skew and cut-off radius',
      SAMPLED + 'finite elements are compared with semi-infinite ones only for a length of 1e4.',
      ['VortexRing', 'VortexCylinder', 'VortexDoublet', 'VortexLine'],
      [('formulations', 'VortexRing.py:ring_u, ring_u_polar, ring_u_polar_singular, ring_u_polar_singularb'), ('cylinders', 'VortexCylinder.py:vc_tang_u, cylinder_tang_u, vc_tang_u_doublet'), ('doublet lines', 'VortexDoublet.py')]),
    P('C04', 'Velocities take their known values on the axis, rotor plane and rim',
      'On its axis a ring induces Gamma/(2R)(1+(z/R)^2)^(-3/2), a semi-infinite tangential cylinder gamma/2(1+z/sqrt(z^2+R^2)), and a finite cylinder gamma/2 times the difference of its end terms, with no transverse velocity. '
      'In the rotor plane a semi-infinite tangential cylinder induces exactly gamma/2 inside and 0 outside its radius and gamma/4 at the rim; a longitudinal cylinder induces zero swirl inside and gamma R/(2r) outside its radius; a root vortex swirls with Gamma/(4 pi r)(1+z/sqrt(r^2+z^2)). '
      'The jump of axial velocity across the cylinder surface equals the sheet strength, and the far-field, doublet and point-vortex velocities have their textbook closed forms.',
      'every axial position, radius ratio, strength, radius and cylinder length',
      SAMPLED + 'the closed forms are sampled on one axis and one rotor plane.',
      ['VortexRing', 'VortexCylinder', 'VortexLine', 'VortexDoublet', 'VortexPoint'],
      [('special values', 'VortexCylinder.py:vc_tang_u, vc_longi_u_polar, cylinder_tang_u; VortexRing.py:ring_u, ring_u_polar')]),
    P('C05', 'Every velocity is a finite number, on the axis and in every plane too',
      'At every control point off the vorticity itself, on the axis, in the rotor plane, at the radius of the cylinder, upstream and downstream, every element function returns finite real velocities for every finite strength and positive radius, never NaN or infinity (finite doublet lines: except close to their two ends). '
      'On the singular point of an element for which the code prescribes a value (ring and cylinder rim, doublet position, doublet line, vortex position) that finite value is returned.',
      'every control point including the degenerate positions, every strength and radius, with and without regularisation',
      SAMPLED + 'whether any input in the plane makes a denominator or a root degenerate cannot be sampled.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'SelfSimilar'],
      [('axis and rim masks', 'VortexRing.py, VortexCylinder.py, VortexDoublet.py, VortexLine.py, VortexCylinderSkewed.py:svc_root_u_polar')]),
    P('C06', 'Axisymmetry, mirror symmetry and Cartesian/polar agreement of the fields',
      'Straight elements (ring, cylinders, root vortex, straight doublet line, self-similar field) depend on the azimuth only through the direction of the radial and tangential unit vectors: rotating the control point about the axis rotates the velocity with it, and the points of the surface of a cylinder get the same finite value at every azimuth. '
      'Polar and Cartesian outputs of one function describe the same vector, with radial velocity along (x,y)/r. '
      'Mirroring z about the rotor plane flips the radial and keeps the axial velocity of a ring or centred finite cylinder, and maps the axial velocity u of a semi-infinite cylinder to gamma-u inside and -u outside its radius.',
      'every control point, rotation angle (any unit vector), strength and radius, both output modes',
      SAMPLED + 'the points of the tests lie in one azimuthal plane.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'SelfSimilar'],
      [('polar to Cartesian', 'VortexRing.py:ring_u; VortexCylinder.py:vc_tang_u, vc_tang_u_doublet, cylinder_tang_u, vc_longi_u_polar; VortexLine.py:vl_semiinf_straight_u_polar')]),
    P('C07', 'Arrays of points: pointwise results, input shape kept, inputs not modified',
      'For an array of control points of any shape, each output component has the shape of the input and each entry equals the result of the function for that point alone, whichever branches (axis, rim, near field, far field, wake) the other points of the array take. Points given as arrays of integers, or a turbine and farm set up with integers, give the same velocities as the equal floating-point numbers. '
      'The arrays and lists given to a function (control points, strengths, radii, centres, loading distributions) are left unchanged. '
      'Empty inputs give empty outputs where the element functions support them.',
      'every mixture of points over the branches, arrays of shape (n,), (n,1), (1,n), (2,2); all element functions, turbine and farm velocities, solver functions',
      'Tests use uniform rows of points; a mask that leaks from one point to another, or an in-place update, shows only for particular mixtures of points.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'SelfSimilar', 'WindTurbine', 'WindFarm', 'Solver'],
      [('masked assignments and reshapes', 'VortexCylinder.py:vc_tang_u, vc_tang_u_doublet; VortexRing.py:ring_u; VortexDoublet.py:doublet_line_u; VortexCylinderSkewed.py')],
      over=('inputs', 'configurations')),
    P('C08', 'Velocities obey dimensional similarity',
      'Scaling all lengths (control points, radii, positions, lengths, core sizes) by one positive factor leaves the velocity of a vortex sheet, cylinder or self-similar field unchanged, and divides that of a ring, line or point vortex by the factor, of a doublet line by its square and of a doublet by its cube. '
      'Scaling wind speed, rotation speed or circulations consistently scales the solver outputs accordingly.',
      'every positive scale factor, control point, strength, radius, skew, cut-off',
      SAMPLED + 'nearly all tests use R=1 or one other radius, so a missing or wrong power of the radius can hide.',
      ['VortexRing', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'SelfSimilar', 'Solver'],
      [('formulas', 'VortexRing.py, VortexCylinder.py, VortexCylinderSkewed.py, VortexDoublet.py, Solver.py')]),
    P('C09', 'Skewed cylinders integrate the Biot-Savart law over the rim',
      'The velocity of a skewed cylinder of longitudinal vorticity is the trapezoidal sum over the azimuth of semi-infinite straight vortex filaments that start on the rim and run along the skewed axis, each with strength gamma R dtheta. '
      'The velocity of a skewed cylinder of tangential vorticity is the trapezoidal sum over the azimuth of the exact Biot-Savart integrals along the skewed generators of tangentially oriented vorticity (strength gamma per unit length along the axis), which at the rotor centre are gamma/2 axially and gamma/2 tan(chi/2) laterally up to the quadrature error. '
      'The skewed root vortex is the Biot-Savart velocity of a semi-infinite filament from the origin along the skewed axis.',
      'every control point, radius, skew, strength; 2 to 4 quadrature points (9 at the rotor centre, |m|<=1/2); Cartesian and polar outputs',
      'Tests compare with references at a few positions to 2-3 decimals with 180 points, which does not separate a wrong integrand from quadrature error.',
      ['VortexCylinderSkewed', 'VortexLine'],
      [('integrands and trapz', 'VortexCylinderSkewed.py:svc_tang_u_polar, svc_longi_u_polar, svc_root_u_polar')]),
    P('C10', 'The output forms of the skewed cylinder functions agree',
      'For skewed elements the polar and the Cartesian outputs describe the same vector, the functions with Cartesian inputs equal those with polar inputs, and the combined function is the sum of its tangential, longitudinal and root parts. '
      'Reversing the skew angle mirrors the tangential field about the plane x=0, mirroring the control point about y=0 mirrors it too, and with zero skew the root vortex equals the straight one. '
      'The legacy wrappers return the same velocities in their documented order, with the skewed components obtained by the rotation of angle chi.',
      'every control point, radius, skew, strength; up to 4 quadrature points',
      'No test requests polar output of the skewed functions away from special planes.',
      ['VortexCylinderSkewed'],
      [('two copies of each integrand', 'VortexCylinderSkewed.py:svc_tang_u_polar, svc_longi_u_polar, svc_root_u_polar'), ('wrappers', 'VortexCylinderSkewed.py:svc_u_polar, fV_Trailed, fV_Tangential, fV_Root, skew_components, polar_components')]),
    P('C11', 'Rotations are proper and frame changes are inverse of each other',
      'The rotation matrix about any unit axis by any angle is orthogonal with determinant one, leaves the axis unchanged, turns vectors by that angle in the right-handed sense, and composes additively in the angle. '
      'Transforming coordinates from one frame to another and back is the identity for every rotation, and the vector returned as orthogonal to a given non-zero vector is a unit vector orthogonal to it. '
      'The rotor disk points lie at the rotor radius from the hub, in the plane normal to the current shaft direction.',
      'every unit axis, angle, vector, hub position, radius and yaw position; up to 4 disk points',
      'No test covers these helpers directly; the turbine tests use two coordinate conventions.',
      ['WindTurbine'],
      [('RotMat_AxisAngle, transform, transform_T, orth_vect, rotor_disk_points', 'WindTurbine.py')]),
    P('C12', 'The wake skew angle follows the current wind and yaw, whatever the history',
      'When no skew angle was prescribed, the wake used in a velocity evaluation is skewed by the angle between the current free-stream direction and the current shaft direction (positive about the vertical), whatever sequence of wind, yaw, position and loading updates and evaluations came before. '
      'A turbine that was updated gives the same velocities as a fresh turbine created with the final settings, and yaw position turns the shaft about the vertical by exactly that angle. '
      'A prescribed skew angle is used unchanged until it is reset. '
      'The wind angle a turbine reports is the signed angle about the vertical from its zero-yaw shaft to the horizontal wind, and its yaw error the signed angle from a horizontal wind to the shaft, also (and never nan) when they are exactly aligned or opposite.',
      'every wind direction, yaw angle, order of updates (sequences of up to 3 operations), both vertical conventions',
      'Tests evaluate one turbine once per configuration; state left by an earlier evaluation is never exercised.',
      ['WindTurbine'],
      [('compute_u, update_wind, update_yaw_pos, set_chi, yaw_wind, yaw_error', 'WindTurbine.py')], over=('inputs', 'histories')),
    P('C13', 'Ground effect adds the mirror image and blocks the flow at the ground',
      'With ground effect, the velocity is that of the turbine plus that of an identical turbine with its hub mirrored below the ground plane (height zero), at every control point, for one or several cylinders per turbine and for straight and skewed wakes (the library documents that it leaves the longitudinal vorticity of several straight cylinders out of it). '
      'With tangential vorticity the vertical velocity then vanishes at every point of the ground, and a turbine at zero hub height induces exactly twice its own velocity. '
      'Without ground effect the image is absent; the choice made in the call takes precedence over the setting of the turbine.',
      'every control point, hub height, radius, strength, skew; 1 and 2 cylinders; setting and call option combinations',
      'One test looks at hub height zero on the axis.',
      ['WindTurbine', 'VortexCylinder', 'VortexCylinderSkewed'],
      [('mirrored control points', 'WindTurbine.py:compute_u; VortexCylinder.py:vcs_tang_u; VortexCylinderSkewed.py:svcs_tang_u, svcs_longi_u')], over=('inputs', 'configurations')),
    P('C14', 'Turbine velocity is the sum of the requested contributions and free stream',
      'The turbine velocity is the free stream (unless only the induction is requested) plus exactly those of the tangential, longitudinal and root contributions that are requested; the contributions are independent of each other and additive. '
      'With the wake blanked, the induced velocity is exactly zero inside the rotor tube (1.001 radii) from 0.6 radii upstream on and unchanged everywhere else. '
      'Far from any change of settings, the same call gives the same answer and does not alter the turbine or the control points.',
      'every combination of flags, every control point relative to the blanked region, every hub position and yaw, 1 and 2 cylinders',
      'Tests use two flag combinations and compare few numbers.',
      ['WindTurbine'], [('flag handling and masking', 'WindTurbine.py:compute_u')], over=('inputs', 'configurations')),
    P('C15', 'Each induction model is the one asked for; unsupported requests raise',
      'The model named in the call, else the one of the turbine, decides the field: exact cylinder, cylinder with far-field approximation beyond the given number of radii, doublet line of strength gamma pi R^2, or self-similar field with axial velocity only. '
      'Combinations the library does not implement (unknown model names, far-field, doublet or self-similar models with skewed wake or with several cylinders, longitudinal vorticity outside of the exact model), and velocity requests before any loading was set, raise an error instead of returning a velocity when the (non-zero) contribution concerned is requested.',
      'every model, model override, skew, number of cylinders and component flags; every control point',
      'Tests exercise each model in one configuration; refusal is not tested at all.',
      ['WindTurbine', 'VortexCylinder', 'SelfSimilar', 'VortexDoublet'], [('dispatch', 'WindTurbine.py:compute_u')], over=('inputs', 'configurations')),
    P('C16', 'A wind farm is the sum of its turbines; layouts and grids are faithful',
      'The farm velocity is the sum of the induced velocities of all its turbines, each with its own position, loading and yaw, plus the free stream exactly once if it is given, for every order of the turbines and every model and flag passed on. '
      'Setting the layout moves each turbine to its row and reading it back returns it; appending anything that is not a turbine, or setting a layout of the wrong shape, is rejected and leaves the farm unchanged. '
      'Grid layouts place every turbine once at multiples of the spacings, centred laterally, at hub height, with the mirrored set below when asked, and the constant-thrust grid velocity is the sum over it of cylinders of strength -U0(1-sqrt(1-CT)).',
      'up to 3 turbines, every position, loading, control point, free stream; grids up to 3x3 with any spacing',
      'Tests build one layout of four turbines.',
      ['WindFarm', 'WindTurbine'], [('velocity_field, layout, append, gridLayout, windfarm_gridlayout_CTconst', 'WindFarm.py')], over=('inputs', 'configurations', 'histories')),
    P('C17', 'Wake vorticity solvers satisfy the circulation and momentum relations',
      'The discrete and continuous solvers return trailed vorticity that telescopes: longitudinal strengths times local circumference sum to the root circulation with opposite sign, and the root vortex carries minus the innermost circulation. '
      'The accumulated tangential strengths give the axial induction a=(1-sqrt(1-Ct_eff))/2 of the local effective thrust, or the empirical high-thrust line above the critical thrust 0.8976 when that correction is on, where Ct_eff is the Kutta-Joukowski thrust less the rotation term when swirl is included; the tangential induction is Gamma/(4 pi Omega r^2). '
      'The stream-tube inductions satisfy Ct=4a(1-a) and Cq=4a\'(1-a)lambda_r.',
      'every circulation or thrust, radius, tip-speed ratio, wind speed; 1 to 3 radial stations; swirl and high-thrust correction on and off',
      'Tests compare one constant-thrust rotor with itself between two solvers to one decimal.',
      ['Solver'], [('WakeVorticityFromCirculation_Discr, WakeVorticityFromCirculation_Cont, InductionsFromCirculation_VC_Cont, InductionsFromPrescribedCtCq_ST', 'Solver.py')],
      over=('inputs', 'configurations')),
    P('C18', 'The thrust distribution with root and tip cut-off is as documented',
      'The thrust coefficient distribution equals the given constant between the root cut-off and tip radii, falls linearly to zero at the rotor centre below the cut-off, and, if a tip radius is given, linearly to zero at the blade tip above it. '
      'It never exceeds the constant, never changes sign and is continuous in the radius for every cut-off and tip radius with 0<cut-off<=tip<1.',
      'every radius in [0,1], constant, cut-off and tip radius; 1 to 3 stations in any order',
      'The function is only used with one cut-off and its values are not tested.',
      ['Solver'], [('Ct_const_cutoff', 'Solver.py')]),
    P('C19', 'The circulation found for a prescribed thrust reproduces that thrust',
      'With swirl, each returned circulation coefficient k minimises the mismatch of k(1+k/(4 lambda_r^2)) with the prescribed thrust over k between 0 and 1.8, using the local speed ratio, local thrust and radius of that station, and is zero where thrust or radius is not positive. '
      'Without swirl k equals the prescribed thrust. '
      'The vorticity computed from a thrust uses the circulation k pi U0^2/Omega and includes swirl only for tip-speed ratios below 20.',
      'every thrust, radius and tip-speed ratio; up to 3 stations; the scalar minimiser is an environment stub that returns a minimiser of what it is given',
      'The tests use a single constant thrust.',
      ['Solver'], [('CirculationFromPrescribedCt, WakeVorticityFromCt, WakeVorticityFromGamma', 'Solver.py')]),
    P('C20', 'The self-similar induction field has its documented shape',
      'Upstream, the self-similar velocity equals the centreline velocity gamma/2(1+z/sqrt(z^2+R^2)) on the axis, and at any radius that value times sech(sqrt2 r/r_half)^(8/9) with r_half=R sqrt(lambda(eta+z^2/R^2)), so it decreases monotonically with radius and keeps the sign of the strength. '
      'It is exactly zero at every point downstream of the rotor plane and the rotor plane itself still belongs to the upstream side.',
      'every control point, radius, strength and shape constants',
      'One test samples three axial positions to two decimals.',
      ['SelfSimilar'], [('ss_u', 'SelfSimilar.py')]),
    P('C21', 'The elliptic integral of the third kind is accurate',
      'The complete elliptic integral of the third kind is computed to at least 1e-8 relative accuracy for every parameter m below one and every characteristic n from -1e9 up to one, independently of the other values in the array: '
      'each loop of the duplication moves its arguments by the duplication theorem and stops only where every entry has converged (relative change below 1e-12), and the value is the 6th order expansion of Carlson (1979) of the integrals RF and RJ. '
      'A characteristic of one gives plus infinity without affecting other entries, and empty arrays give empty arrays.',
      'every parameter and characteristic below one (symbolic), arrays of one and two entries, loops up to their 2nd (3rd) stage; the convergence of later stages is compared with mpmath at the witnesses', 'Tests sample a few tens of values.',
      ['elliptic'], [('ellipticPiCarlson', 'elliptic.py')]),
    P('C22', 'Regularised vortex kernels bound the velocity and tend to the ideal vortex',
      'Point vortices induce Gamma/(2 pi r) at right angles to the separation, counter-clockwise for positive circulation, and each smoothed kernel multiplies it by the documented factor (one minus polynomial times Gaussian of the squared distance over core size) of the vortex concerned. '
      'The viscous cores of the semi-infinite line multiply the ideal velocity by a factor between 0 and 1 (Rankine, Lamb-Oseen, Vatistas, cut-off) that depends only on distance over core radius and tends to zero on the line. '
      'Regularised rings and cylinders equal the ideal ones outside of their cores respectively upstream, and unknown smoothing models, kernel orders or mismatched dimensions raise an error.',
      'every position, circulation, core size, kernel order; up to 2 vortices and points',
      'There is no test of point vortices nor of any viscous core.',
      ['VortexPoint', 'VortexLine', 'VortexRing', 'VortexCylinder'], [('vp_u, vps_u', 'VortexPoint.py'), ('vl_semiinf_u', 'VortexLine.py'), ('epsilon', 'VortexRing.py:ring_u_polar, VortexCylinder.py:vc_tang_u')],
      over=('inputs', 'configurations')),
    P('C23', 'Rotor-plane flow expansions equal their defining azimuthal integrals',
      'The closed forms of the rotor-plane flow expansion functions Kxit and Kzt (in complete elliptic integrals) and each of their numerical forms equal the defining integrals over the azimuth, '
      'and the third output is the polynomial r/2 (1+0.4 r^2+0.4 r^4). On the axis they are zero, the axial expansion is even and the other odd in the skew, the number and order of the outputs follow nout, '
      'the inputs are unchanged and zero skew is refused where the formula does not admit it.',
      'every radius in [0,0.95], every skew, up to 2 radii; integrals as exact integrals (the trapezoidal error of 1000 nodes is not part of it)', 'Tests do not cover these functions.',
      ['VortexCylinderSkewed'], [('fKxit, fKzt', 'VortexCylinderSkewed.py')]),
    P('C24', 'Turbine velocities are independent of position, heading and axes convention',
      'Moving the turbine hub and the control points by the same vector, or turning wind, turbine and control points together about the vertical, moves respectively turns the velocity field with them and changes nothing else. '
      'The same turbine described with the vertical along y and shaft along z, or the vertical along z and shaft along x, gives the same physical velocities. '
      'This includes the points of the rotor\'s own disk, rim, cylinder surface and upstream axis, where the velocity is that of the elements in the frame of the rotor, and finite, at every heading.',
      'every hub position, translation, yaw/heading angle, control point, strength, model; 1 and 2 cylinders',
      'Tests use a turbine at the origin in one of two conventions.',
      ['WindTurbine'], [('set_yaw0_coord, compute_u', 'WindTurbine.py')], over=('inputs', 'configurations')),
    P('C25', 'Loading updates set the cylinders that the loading asks for',
      'Updating the loading with one cylinder uses the mean of the given thrust or circulation and the rotor radius; with several cylinders it interpolates the given distribution linearly at the cylinder stations (0.005 to 0.995 radii, equally spaced); with no cylinder count it uses the stations as given. '
      'The sheet strength is that of the wake solver for the current wind speed and tip-speed ratio, or the user function of thrust if given; the tip-speed ratio given in the call replaces the stored one, and the stored one is used when none is given. '
      'Incomplete requests (no loading, user function without thrust, no tip-speed ratio) raise an error and each update fully replaces the previous loading.',
      'every distribution of 1 to 3 stations, 1 to 3 cylinders, wind vector, tip-speed ratio; sequences of two updates',
      'The tests use one constant-thrust distribution.',
      ['WindTurbine', 'Solver'], [('update_loading', 'WindTurbine.py')], over=('inputs', 'configurations', 'histories')),
]

NA = {
}
LATER = 'check not built yet'

TECH = 'symbolic execution of the repository source (numpy/scipy shims, all branches) with polynomial normalisation, and Z3 (nonlinear real arithmetic) deciding each path condition and each negated assertion; counterexamples replayed on the real code'
NOTE = 'Every feasible path of the encoded functions within the listed sizes is covered for all real inputs; floats are treated as exact reals, K/E/Pi and transcendental functions are uninterpreted with their rules; cases left undecided by the solver are printed and listed in the evidence.'


def main():
    have = {p['id'] for p in PROPS if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            assert len(set(p['id'] for p in PROPS)) == len(PROPS)
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in have and i not in NA:
            checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python -B run.py --prop %s --tier quick' % i,
                               thorough_cmd='/opt/venv/bin/python -B run.py --prop %s --tier thorough' % i,
                               technique=TECH, level='model_checking', level_note=(p['_note'] + ' ' + NOTE).strip()))
        else:
            na.append(dict(property=i, reason=NA.get(i, LATER)))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B run.py --selftest', checks=checks, not_applicable=na,
                       notes='no hooks in /repo; the encoding is regenerated from /repo at each run'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
