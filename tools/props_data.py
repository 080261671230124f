prop("C01", "A Peccei-Quinn field step solves the discretised field equation",
 "One time step of the complex Peccei-Quinn field on a periodic lattice equals the Runge-Kutta-Nystrom integration of the comoving field equation with the selected Laplacian order, saxion self-coupling, axion potential, damping/constraint variant and cosmological background, evaluated at the right intermediate times, to within the rounding of the chosen precision. This holds at every lattice site, including those on the faces of the box.",
 ["inputs","configurations"], "every field and velocity configuration, lattice size, precision, Laplacian order 1..5, supported potential/variant, time, step and expansion law",
 SMOKE+"no test compares an evolved field with the equation of motion, and each SIMD kernel branch (faces, precision, potential, damping) is a separate instantiation.",
 ["include/propagator/propXeon.h","include/propagator/propClass.h","include/propagator/sPropXeon.h","lib/propagator/propagator.cpp","lib/scalar/scalarField.cpp"],
 [("field","comoving complex field and its conformal-time derivative","include/scalar/scalarField.h")],
 [("Runge-Kutta-Nystrom stage loop","include/propagator/propClass.h"),("vectorised kernel","include/propagator/propXeon.h")])
prop("C02", "An axion-angle field step solves the discretised field equation",
 "One time step of the real axion field equals the Runge-Kutta-Nystrom integration of its comoving field equation with the selected Laplacian order, potential (none, quadratic or cosine), mass law and background, evaluated at the right intermediate times, at every site of the periodic lattice. In the modular variant (without expansion), adding to any site any multiple of the period changes neither the evolution modulo that period nor the velocities.",
 ["inputs","configurations"], "every axion field and velocity, lattice size, precision, Laplacian order, potential, time, step and expansion law",
 SMOKE+"no test compares an evolved axion with the equation of motion.",
 ["include/propagator/propThetaXeon.h","include/propagator/propThetaModXeon.h","include/propagator/propClass.h","include/propagator/sPropThetaXeon.h","lib/propagator/propagator.cpp"])
prop("C03", "Evolution converges to the continuum-time solution at fourth order",
 "For smooth time-dependent masses and backgrounds the error of the default integrator after a fixed time, measured against an independent high-accuracy solution of the same lattice equation, falls by about sixteen when the step is halved, for the Peccei-Quinn field and for the axion angle, and a step taken forward and then backward returns to the initial state to that accuracy.",
 ["inputs","histories"], "sequences of steps over smooth initial states, mass laws and expansion laws",
 SMOKE+"order of accuracy is a statement about families of step sizes, which no single run can show.",
 ["include/propagator/propClass.h","lib/propagator/propagator.cpp","lib/cosmos/cosmos.cpp"])
prop("C04", "Results do not depend on ranks, threads or block tuning",
 "The same initial field evolved and measured on any number of processes that divides the box, any number of threads and any kernel block shape gives the same fields, energies, string counts and spectra (identical fields, sums equal up to summation rounding).",
 ["configurations","schedules"], "process counts, thread counts, block shapes and initial fields",
 SMOKE+"a single run cannot be compared with another decomposition, and the initial conditions are drawn from a fresh random device on each run.",
 ["lib/comms/comms.cpp","lib/scalar/scalarField.cpp","lib/propagator/propagator.cpp","include/utils/tunable.h"])
prop("C05", "Non-relativistic axion evolution is unitary and matches its equation",
 "Converting the axion field gives the non-relativistic complex field with the angle's amplitude and velocity (adiabatic term included); a step conserves the particle number and matches an independent integration of the Schroedinger-type lattice equation including the self-interaction; the reported number density, gradient and self-interaction energies and their map are the lattice averages of the field; and the gravitational potential computed from the density satisfies the periodic Poisson equation with zero mean.",
 ["inputs","configurations"], "every non-relativistic field, size, precision, time and step",
 SMOKE+"no test looks at the norm or at the potential.",
 ["include/propagator/propPaxXeon.h","include/gravity/potentialClass.h","lib/gravity/potential.cpp","lib/propagator/propagator.cpp"])
prop("C06", "Automatic time steps are positive, stable and never skip a mass threshold",
 "The automatic step is finite and positive, scales linearly with the step-safety factor, keeps step times the fastest lattice frequency of the current field below the stability bound of the Laplacian in use, and a step started before the time at which the axion mass saturates never ends beyond it except by landing just past it.",
 ["inputs","configurations"], "every time, box, lattice, coupling, mass law and field type",
 SMOKE+"stability for a whole range of parameters is never exercised.",
 ["lib/scalar/scalarField.cpp","lib/cosmos/cosmos.cpp"])
prop("C07", "Vector-layout conversions are lossless and exact permutations",
 "Converting a field (or a slice, or the auxiliary field) to the vector-friendly layout and back restores every value bit for bit, each conversion is the documented permutation of the sites within each slice, converting twice in the same direction changes nothing, and extracted slices equal the same slices of the unfolded field.",
 ["inputs","histories"], "every field content, lattice size, precision, field type and sequence of conversions",
 SMOKE+"the layouts are internal to each run and never compared.",
 ["lib/scalar/folder.cpp","include/scalar/folder.h"])
prop("C08", "Neighbour exchange makes the box exactly periodic",
 "After exchanging boundary slices, the slices before the first and after the last local slice equal the corresponding periodic neighbours bit for bit, for the field, its velocity or its auxiliary copy, for any boundary depth up to what the slab allows, and repeated or split (post, then wait) exchanges give the same result without touching interior slices.",
 ["inputs","configurations","schedules"], "every slab content, number of processes, boundary depth and order of post/wait",
 SMOKE+"boundary slices are never inspected.",
 ["lib/scalar/scalarField.cpp","lib/comms/comms.cpp"])
prop("C09", "Complex-to-angle conversion keeps the angle and removes branch jumps",
 "Converting the complex field to the axion angle yields, at every site, the argument of the (shifted) complex field times the scale factor up to a multiple of 2 pi, with the matching velocity; after branch mending no two neighbouring sites of a string-free field differ by more than half a period, while every value changes only by a multiple of the period.",
 ["inputs"], "every string-free complex field, shift, size, precision and process count",
 SMOKE+"the converted field is never compared with the complex one.",
 ["lib/scalar/thetaScalar.cpp","lib/scalar/thetaXeon.cpp","lib/scalar/mendTheta.cpp","lib/scalar/mendThetaXeon.cpp","lib/scalar/scalarField.cpp"])
prop("C10", "Field rescaling, normalisation and angle-to-complex conversion are exact",
 "Scaling multiplies every selected component by the given factor and nothing else, normalising gives every site modulus one without changing its phase, and building the complex field from an angle produces modulus equal to the scale factor and the given phase, with the velocity obtained by the product rule.",
 ["inputs"], "every field, velocity, size, precision and time",
 SMOKE+"no test examines the values.",
 ["lib/scalar/scaleField.cpp","lib/scalar/scaleXeon.cpp","lib/scalar/normField.cpp","lib/scalar/normXeon.cpp","lib/scalar/theta2Cmplx.cpp","lib/scalar/theta2CmplxXeon.cpp"])
prop("C11", "Fourier transforms invert and agree with a direct transform",
 "Transforming a field to momentum space and back returns the field to rounding, the momentum-space field equals a direct discrete Fourier transform in the documented (transposed) ordering, and the spectral Laplacian equals the inverse transform of minus k squared times the transform.",
 ["inputs","configurations"], "every field, size, precision, type and process count",
 SMOKE+"transform results are never compared.",
 ["lib/fft/fftCode.cpp","lib/scalar/fourier.cpp","lib/propagator/laplacian.cpp"])
prop("C12", "Reported Peccei-Quinn energies equal the lattice energy of the field",
 "Every energy component reported for the complex field (three gradient, kinetic and potential terms for the radial and angular parts, and the mean modulus) equals the site-by-site average computed directly from field and velocity for the potential in use, masked averages equal the same averages restricted to the masked sites and count those sites, and the energy map holds the local total so that its mean equals the sum of the components.",
 ["inputs","configurations"], "every field without zeros, velocity, size, precision, potential, shift, mask, time and boundary depth",
 SMOKE+"reported energies are never compared with the field.",
 ["lib/energy/energy.cpp","lib/energy/energyXeon.cpp"])
prop("C13", "Reported axion energies equal the lattice energy of the field",
 "Every energy component reported for the axion field (three gradient terms, kinetic and potential) equals the site-by-site average computed directly from field and velocity, independent of 2 pi jumps in the modular variant, and the energy map holds the local total whose mean equals the sum of the components.",
 ["inputs","configurations"], "every axion or non-relativistic field, velocity, size, precision, time and boundary depth",
 SMOKE+"reported energies are never compared with the field.",
 ["lib/energy/energy.cpp","lib/energy/energyThetaXeon.cpp","lib/energy/energyPaxionXeon.cpp"])
prop("C14", "String and wall detection equals the winding of every plaquette",
 "A plaquette is flagged as pierced by a string, with its orientation, exactly when the phase of the field winds once around it, the reported numbers of pierced plaquettes, net orientation and wall sites equal the counts of the flags, every elementary cube has zero net flux, the flags sit at the site they belong to, and wall flags mark the sites where the angle crosses pi towards a neighbour.",
 ["inputs","configurations"], "every complex field, size, precision, boundary depth and process count",
 SMOKE+"string numbers are never compared with the field.",
 ["lib/strings/strings.cpp","lib/strings/stringXeon.cpp"])
prop("C15", "String positions and lengths describe exactly the detected strings",
 "The list of string positions contains one entry at the centre of each pierced plaquette and nothing else; the length adds, in every cell, the segments joining the interpolated crossing points of its pierced plaquettes (averaged over the possible pairings), so that a straight string is measured at its length; mean velocity and Lorentz factor are the averages over the pierced plaquettes of the values interpolated there; and the string, saxion and axion energies are the averages over the masked and unmasked sites.",
 ["inputs","configurations"], "every complex field, size, precision and process count",
 SMOKE+"positions and lengths are never compared with the field.",
 ["lib/strings/strings.cpp","lib/strings/length.cpp"])
prop("C16", "Spectra equal direct mode sums",
 "Energy, density and number spectra equal the sums over Fourier modes of the squared transform of the respective quantity in the documented momentum shells and normalisation (cubic boxes), with or without string masks, so that the sum over all shells satisfies Parseval's identity, and the reported number of modes per shell counts every lattice momentum once.",
 ["inputs","configurations"], "every field, size, precision, binning and process count",
 SMOKE+"spectra are never compared with the field.",
 ["lib/spectrum/spectrum.cpp","include/spectrum/spectrum.h","lib/utils/kgvops.cpp"])
prop("C17", "String masks cover exactly the neighbourhood they are defined by",
 "Every string mask (ball, smoothed, density and axiton masks) marks exactly the sites its definition names, a ball mask those within the stated radius of a site with a pierced plaquette, growing monotonically with the radius, independently of the decomposition, and leaving the string flags as they were.",
 ["inputs","configurations"], "every complex field, radius, mask type and process count",
 SMOKE+"masks are never compared with the strings.",
 ["lib/spectrum/spectrum.cpp"])
prop("C18", "Histograms count every datum once and are normalised",
 "A histogram of any finite data set covers its exact minimum and maximum, assigns every datum inside to the bin containing it, integrates to the fraction of finite data, ignores padding and infinite entries, and does not depend on threads or processes.",
 ["inputs","configurations"], "every data array, bin count, filter, padding and process count",
 SMOKE+"histograms are never compared with the data.",
 ["include/utils/binner.h"])
prop("C19", "Reduction to a smaller lattice is filtered, linear and leaves the source alone",
 "Reducing a field or energy map to a smaller lattice equals applying the given momentum filter and sampling the result at the coarse sites, is linear, preserves constants, an out-of-place reduction leaves the original field unchanged while filling the new one, and expanding a field to a larger lattice interpolates it linearly.",
 ["inputs","configurations"], "every field or map, sizes, filter, precision and process count",
 SMOKE+"reduced fields are never compared with the original.",
 ["lib/reducer/reducer.cpp"])
prop("C20", "Projections and slices equal the sums and planes they stand for",
 "The projection of a map equals the average of the filtered map along the projected direction, and the plane written for a field or map equals that plane of the field.",
 ["inputs","configurations"], "every map, filter, size, precision and process count",
 SMOKE+"maps are never compared with the field.",
 ["lib/projector/projector.cpp","lib/map/maps.cpp","lib/io/readWrite.pHdf5.cpp"])
prop("C21", "A written configuration reads back identically",
 "Writing a configuration and reading it back, with the same or another number of processes, reproduces every field and velocity value bit for bit in the same precision (to rounding when the precision changes), together with time, field type, cosmology and potential parameters.",
 ["inputs","configurations","histories"], "every field type, content, size, precision, cosmology and process count",
 SMOKE+"a file is read back only by a program whose results nobody compares.",
 ["lib/io/readWrite.pHdf5.cpp"])
prop("C22", "Stopping and restarting does not change the evolution",
 "A run that is stopped at any step, written, read and continued gives the same fields as the uninterrupted run.",
 ["histories","crash_points"], "every stopping step, field type, precision and boundary depth",
 SMOKE+"a restarted run is never compared with the uninterrupted one.",
 ["lib/io/readWrite.pHdf5.cpp","lib/propagator/propagator.cpp"])
prop("C23", "Measurement files contain the measured values",
 "A measurement writes exactly the spectra, histograms, maps and energies that were selected, each under its group and name and with the value it has for the field at that moment, together with the time, scale factor and model parameters of that moment, and leaves field and velocity as they were; selecting one measurement does not change the value of another.",
 ["inputs","histories"], "every measured field, precision, boundary depth, selection of measurements, mask and radius, sequence of measurement files and process count",
 SMOKE+"contents of measurement files are never read.",
 ["lib/io/readWrite.pHdf5.cpp","lib/meas/measa.cpp"])
prop("C24", "N-body output conserves mass and places particles in the box",
 "The N-body files contain exactly the requested number of particles, each with its own label, inside the periodic box, whose total mass is the matter density times the volume and whose distribution reproduces the density of the field: with equal masses, every site gets its share of particles rounded up or down; with one particle per site, each mass is the density of its site, or the density interpolated to its place when particles are displaced, and velocities are proportional to the phase gradient there.",
 ["inputs","configurations"], "every density field, number of particles (a multiple of the sites of a plane times the processes), displacement and process count",
 SMOKE+"only the presence of the file is checked.",
 ["lib/gadget/gadget_output.cpp"])
prop("C25", "Background functions are mutually consistent",
 "For every expansion law the scale factor, its first and second derivatives, the axion and saxion masses and their time derivatives and integrals are mutually consistent: each derivative equals the numerical derivative of the function it belongs to, masses are non-negative and continuous at the threshold and follow the stated power laws on each side.",
 ["inputs","configurations"], "every time, expansion exponent, mass exponent, threshold and restoring time",
 SMOKE+"background values are never examined.",
 ["lib/cosmos/cosmos.cpp","include/cosmos/cosmos.h","lib/scalar/scalarField.cpp","include/WKB/spline.h"])
prop("C26", "WKB evolution of linear modes equals their exact evolution",
 "Evolving an axion field with the WKB method to a later time agrees with direct integration of every Fourier mode of the linear equation (radiation era, cubic box) within the accuracy of the adiabatic approximation, keeps the adiabatic invariant of each mode, and evolving to the same time changes nothing.",
 ["inputs","configurations"], "every field, mass law, start and end time",
 SMOKE+"WKB output is never compared with a solution.",
 ["lib/WKB/WKB.cpp"])
prop("C27", "The command line sets exactly the requested parameters",
 "Each documented option, in any compatible combination and order, sets its own parameter to the given value and leaves the others at their defaults, whatever the order. Values outside the documented range, unknown names, unknown options, missing arguments and contradictory options end the program with a message and non-zero status, never with a crash or silently. Derived parameters follow the documented relations: with --msa the coupling makes the saxion mass times the lattice spacing equal to msa at the final time (initial time if the coupling exponent exceeds 2), and --logi or --zi fix each other through the logarithm of saxion mass times horizon. With --index only the given physical parameters replace those of the file. Help pages end the program successfully; leftover stop and abort requests are removed; --measlistlog writes log-spaced times. Debugging, legacy and axiton tracker options are outside",
 ["inputs","programs"], "every sequence of documented options with valid or invalid values",
 SMOKE+"a handful of fixed command lines are used.",
 ["lib/utils/parse.cpp"])
prop("C28", "Initial conditions have the requested structure",
 "The generated field is finite and its ghost slices are those of the periodic lattice. Point-based generators (one mode, parametric wave, axiton and minicluster lumps, circular string loops in both planes, uniform noise in angle or modulus, random phases) give at every site the documented angle and modulus with the requested parameters (mode0, kcr, kMax), also in boxes whose depth differs from their width, and, with an expanding background, the velocity R'(1+kick)/R times the field. Mode-based generation gives every mode up to the requested maximum momentum the documented amplitude as a function of its momentum, nothing beyond, the requested zero mode, and uniform random phases; whole mode-based and smoothed generators give unit modulus times the scale factor (mean one for the correlation-length generator), the tkachev and spectrum generators the requested power and velocity modes. One smoothing iteration is the weighted average with the six neighbours, and smoothing conserves the mean. String configurations read from a file and the prepropagator are outside.",
 ["inputs","configurations"], "every generator listed, its parameters, size, precision, process and thread count",
 SMOKE+"generated fields are never examined.",
 ["lib/gen/genConf.cpp","lib/gen/momConf.cpp","lib/gen/randXeon.cpp","lib/gen/smoothXeon.cpp","lib/scalar/normField.cpp","lib/scalar/theta2Cmplx.cpp"])
