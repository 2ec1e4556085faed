#!/usr/bin/env python3
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
SK='src/sat_skymap.c'; SV='src/sat_visibility.c'
NOT="The only tests (HealpixC/test_chealpix) never run this code; "
prop('C01','Region search returns exactly the satellites inside the region',
 "A sky-region query of sat_skymap returns a catalogue satellite if and only if its angular separation from the region centre, at the requested epoch or delta_time later, is at most the radius, and it passes the altitude-range and sunlit-only filters when those are requested. Separation is the great-circle distance with -H and the triangle of coordinate differences (taken the short way round in RA / longitude) without it; with -E the compared positions are the satellite's geodetic position (at the requested epoch only) and the observing site, otherwise they are J2000 RA/Dec and the given (or zenith) position. The separation it reports is that of the requested epoch, in degrees.",
 ['inputs','configurations'],"all placements of satellites on a sky grid (incl. both sides of RA=0, poles, antipode) x region centres x radii x filter/mode combinations",
 NOT+"an example output samples one region; the wrap-around and filter combinations need the whole grid.",
 [SK,'src/skysep_h.c','src/observe.c'],[('separation and region test',SK+' main loop'),('haversine','src/skysep_h.c'),('altitude filter',SK)],observe=['stdout JSON of sat_skymap'])
prop('C02','Selecting by number, designator or name returns only that object',
 "Asking either tool for one satellite by catalogue number (including letter-coded numbers above 99999) or by full international designator (including multi-letter pieces) returns that satellite's data if it is present in the TLE input and passes the requested filters, and otherwise returns no satellite; no other object is ever reported in its place. Selecting by name in sat_skymap returns, regardless of region, exactly the satellites whose catalogue name begins with the given text. Every returned entry carries the name, designator and catalogue number of one and the same input entry.",
 ['inputs','configurations'],"all small catalogues (orders, duplicates, missing target, 2- and 3-line entries) x all selectors x filter switches",
 NOT+"an off-by-one in the match/skip state only shows for particular orders of entries and switches.",
 [SK,SV,'src/get_el.c'],[('selection state over the read loop',SK+' / '+SV+' main loop'),('catalogue number decoding','src/get_el.c')],observe=['stdout JSON'])
prop('C03','Each satellite once, in input order, with exact counts and cap',
 "Over one TLE file or a list of files, each catalogue number is reported at most once (first occurrence wins), in input order, whatever the catalogue size, and comment and empty lines of a list file are skipped. At most max_sats satellites are returned, and they are the first matching ones. The reported counters equal the number of entries returned and the number of those flagged sunlit, and the information-only switch changes nothing but omitting the entries.",
 ['inputs','histories','configurations'],"all sequences of TLE entries over a small id alphabet split over 1-3 files in every way, all caps, plus catalogues around every internal capacity step",
 NOT+"duplicates across files and capacity boundaries are history-dependent.",
 [SK],[('already-seen buffer',SK),('early stop at cap',SK),('closing counters',SK)],observe=['stdout JSON'])
prop('C04','Output is one well-formed JSON document, whatever fails',
 "Every run of sat_skymap or sat_visibility that gets past option handling prints exactly one syntactically valid JSON document ending with run_command, status, errmsg and counters, even if a file is missing, empty, truncated at any byte, unreadable half way, contains undecodable elements, or memory cannot be allocated. A run that fails in one of these ways (input or list file that cannot be opened or read to its end, first line that cannot be read, no position computable for the requested satellite or a position that is not a number, no memory) reports a non-zero status with a non-empty message and exits non-zero; a run that succeeds reports status 0 with exit code 0. Satellites listed before a failure stay intact in the document.",
 ['fault_sequences','inputs','configurations'],"every single failure point of every file/memory operation, and truncation at every byte, of runs over small inputs in every output mode",
 NOT+"failures in the middle of a list never happen in ordinary runs.",
 [SK,SV],[('JSON opening/closing helpers',SK),('JSON opening/closing helpers',SV),('error exits',SK+', '+SV)],observe=['stdout','exit status'])
prop('C05','No command line or TLE text crashes, corrupts memory or hangs the tools',
 "For every command line (options in any combination, attached or detached values, missing, malformed, out-of-range or very long values) and every TLE text (valid, truncated or with any corrupted character), both tools terminate (in a time proportional to the requested number of samples) without invalid memory access, abnormal termination or undefined behaviour. Option letters given together or without their value are diagnosed or ignored, never looped over.",
 ['inputs'],"all option sequences up to a bounded length over an alphabet with every option and each value class; every single-character corruption and truncation of TLE lines",
 NOT+"malformed input is outside any sample run.",
 [SK,SV,'src/get_el.c','src/mjd2date.c','src/date2mjd_nf.c'],[('option loop',SK+', '+SV),('fixed-size buffers',SK+', '+SV),('field readers','src/get_el.c')],observe=['exit status, sanitizer reports, time'])
prop('C06','Option meaning does not depend on position or spelling',
 "For both tools the result of a query is a function of the set of options only: any order of options, the value attached or separated by a blank, another way of writing the same value (2e4 for 20000, the two altitude limits in either order, a longitude modulo 360 degrees), and the TLE file given as first or last argument yield the same document up to the echoed command. The documented precedences hold in any order: a calendar date overrides an MJD, an explicit TLE directory overrides the default-directory switch, the site-reference switch overrides given region coordinates, and the altitude filter does not apply to a single-satellite query of sat_skymap. The echoed run_command is the given command line, and out-of-range or unknown options are answered with a negative status naming them.",
 ['inputs','configurations'],"all subsets of options up to a size, all their permutations, all attach/detach spellings and file positions",
 NOT+"the permutation space is combinatorial and order bugs only show for particular orders.",
 [SK,SV],[('option loop',SK+', '+SV),('file argument position',SK+', '+SV)],observe=['stdout JSON'])
prop('C07','Visibility window is the first sunlit pass, consistently described',
 "sat_visibility scans from the start to the end of the requested range in delta_time steps and reports as window the first maximal run of samples at which the satellite is within the radius of the zenith and sunlit (nothing if there is none): it starts at the first such sample and ends at the first later sample that leaves the radius or the sunlight, or at the last sample of the range. The maximum is the sample of that window with least zenith distance, mid lies half way between start and end, the duration equals end minus start, and each event's Date and MJD denote the same instant at which its position, geodetic location and Sun data hold. With the skip-daytime switch the scan begins once the Sun is set.",
 ['histories','inputs'],"all sequences of (inside/outside radius, sunlit/shadow, higher/lower) over the samples of the range up to a bounded length, all range/step alignments",
 NOT+"a pass is a history of samples; only enumerating histories shows the boundary cases (window at first/last sample, single sample, shadow inside radius).",
 [SV],[('time loop state (start found / end found)',SV+' main'),('mid / max evaluation',SV)],state=[dict(name='window state',meaning='before / in / after the sunlit pass',where=SV)],observe=['stdout JSON'])
prop('C08','Calendar date and MJD conversions are mutually exact to the second',
 "For every UTC second from 1859 to 9999, converting the ISO calendar date to MJD gives the proleptic Gregorian value to within half a second, and converting that MJD back gives the same ISO string, with all fields in range (never 60 seconds or 24 hours); malformed dates are reported as errors. The millisecond variant agrees to the millisecond, an out-of-range MJD yields no date, and the MJD-now tool prints the MJD of the system clock.",
 ['inputs'],"every day of the range x every second-of-day class, and every second of selected days",
 NOT+"rounding carries occur at isolated seconds of isolated days.",
 ['src/date2mjd_nf.c','src/mjd2date.c','src/mjdnow.c'],[('calendar to MJD','src/date2mjd_nf.c'),('MJD to calendar','src/mjd2date.c')],observe=['library calls, mjdnow stdout'])
prop('C09','TLE parsing recovers every field and flags every corruption',
 "Parsing a well-formed pair of TLE lines yields exactly the encoded epoch, identifiers, orbital elements (radians, minutes) and drag terms for every value each field can take, including the base-36 state-vector form. The return value is 0 for correct checksums, 1, 2 or 3 according to which lines have a wrong checksum, and negative when a line is not a TLE line (wrong first column, illegal character, wrong length); a single altered digit is always noticed.",
 ['inputs'],"every value class of every field in every column, every single-character substitution at every column of both lines",
 NOT+"field-boundary errors only appear for particular digits, signs and blanks.",
 ['src/get_el.c'],[('line parser','src/get_el.c parse_elements'),('checksum','src/get_el.c tle_checksum')],observe=['parse result structure'])
prop('C10','Catalogue number coding is a bijection',
 "The 34^5 five-character catalogue identifiers (digits and upper-case letters without I and O) decode to distinct numbers covering 0 to 45435423 exactly as documented: plain numbers, then the letter-first form up to 339999, then the documented extension ranges. Leading blanks count as zeros and any other character gives 0.",
 ['inputs'],"all 45,435,424 identifiers and all invalid single characters",
 NOT+"only full enumeration shows a gap or collision.",
 ['src/get_el.c'],[('identifier decoding','src/get_el.c')],observe=['parse result structure'])
prop('C11','Propagated positions do not depend on what was computed before',
 "For every orbit model, the position and velocity of a satellite at a given time are the same (within the model's documented caching tolerance for lunar-solar terms and the accuracy of its resonance integration) whatever other times were requested before with the same initialised element set, whatever other satellites were initialised or propagated in between, and whether or not velocity was requested. Repeating the same request gives the same answer.",
 ['histories'],"all sequences of propagation requests up to a bounded length over a time alphabet (before/after epoch, resonance step boundaries, far) x representative orbits of each class x interleaving with another satellite",
 NOT+"the deep-space models keep integrator and perturbation state between calls, so only histories can expose it.",
 ['src/sgp.c','src/sgp4.c','src/sgp8.c','src/sdp4.c','src/sdp8.c','src/deep.c'],[('resonance integrator restart','src/deep.c'),('lunar-solar cache','src/deep.c, src/sdp4.c')],state=[dict(name='deep-space integrator state',meaning='last integration time and elements',where='src/deep.c')],observe=['position/velocity vectors'])
prop('C12','Propagation is physically consistent across models and orbit classes',
 "For every orbit model and orbit class (near-earth, deep-space, 12-hour and 24-hour resonant, state-vector form), the returned velocity is the time derivative of the returned position, the position at epoch reproduces the two-body orbit given by the elements up to the size of the perturbations, the models meant for the same class agree with each other, and the models reproduce the published equations (Spacetrack Report 3 as later corrected; for the state-vector form point-mass gravity of the Earth, the Moon and the Sun integrated in steps of at most a day). Both programs report positions of the model chosen. The automatic choice uses the deep-space model exactly for periods of 225 minutes or more. Elements for which no position can be computed are signalled by an error code, never by a plausible position.",
 ['inputs'],"the grid of orbital elements (all quadrants of each angle, eccentricity and mean-motion classes) x times x models",
 NOT+"orbit classes and quadrants not present in the sample files are never exercised.",
 ['src/sgp.c','src/sgp4.c','src/sgp8.c','src/sdp4.c','src/sdp8.c','src/deep.c','src/common.c','src/basics.c'],[('common initialisation','src/common.c'),('position/velocity','src/common.c'),('model choice','src/basics.c')],observe=['position/velocity vectors, return codes'])
prop('C13','HEALPix indexing is a consistent partition of the sphere',
 "At every resolution every direction belongs to exactly one pixel whose index is in range, and this index is the same whether the direction is given by angles (any longitude, poles included) or by a vector of any length, and whether the 32-bit or the 64-bit interface is used. Pixel centres map back to their pixel in both numbering schemes, the two schemes are inverse permutations of each other, a nested pixel's parent contains the same direction at the next coarser resolution, and ring numbers grow from north to south and eastward. Errors (non-power-of-two resolution in nested conversions, impossible pixel counts) are reported as -1.",
 ['inputs'],"all pixels (centres, corners and edge points) of all resolutions up to a bound and structured pixels up to 2^29, all longitude wraps",
 "The tests only check round trips of sampled pixel centres; directions off the centre, longitude wraps, hierarchy and cross-interface agreement are not tested.",
 ['HealpixC/chealpix.c'],[('direction to pixel','HealpixC/chealpix.c'),('pixel to direction','HealpixC/chealpix.c'),('scheme conversion','HealpixC/chealpix.c')],observe=['library calls'])
prop('C14','A HEALPix map written to FITS reads back identically',
 "Writing a map of normal numbers with any resolution, ordering and coordinate system and reading it back returns the same values in the same order, the same resolution, ordering and (normalised) coordinate system, and the size query returns the same resolution, ordering and the number of pixels. Any storage failure is reported and ends the program with a failure status; it never yields a map silently different from the one written.",
 ['inputs','fault_sequences'],"all resolutions up to a bound x orderings x coordinate letters; every failing write/read call and truncation of the file",
 "The tests write one 12-pixel nested map.",
 ['HealpixC/chealpix.c'],[('FITS writer/reader','HealpixC/chealpix.c ENABLE_FITSIO')],observe=['library calls, exit status'])
prop('C15','Sky geometry routines are exact for every direction',
 "The great-circle separation is symmetric, zero only for equal directions, at most 180 degrees and equal to the angle between the two directions for every pair, including antipodes, poles and longitudes given in either sign convention. Altitude, azimuth (0 to 360 degrees, north through east) and parallactic angle computed from declination, hour angle and latitude equal those of the corresponding rotation for every hour angle, declination and latitude, including the meridian, the zenith and sites at the poles. The library's inverse conversion gives back the hour angle and declination of an azimuth and altitude, and its unit vectors are those of their direction.",
 ['inputs'],"the full product grid of directions/hour angles/latitudes incl. all degenerate lines, and points adjacent to them",
 NOT+"degenerate directions are isolated points a sample does not hit.",
 ['src/skysep_h.c','src/dechalat2alt.c','src/zenith_site_ra.c'],[('haversine separation','src/skysep_h.c'),('horizontal coordinates','src/dechalat2alt.c')],observe=['library calls'])
prop('C16','Sidereal time and Earth rotation agree everywhere',
 "All sidereal-time computations in the package agree with the standard GMST expression to better than 0.1 s for every instant of 1950-2100, lie in [0,24) hours, are continuous across midnight and year boundaries, and local time differs from Greenwich by the longitude. The zenith right ascension, the observer's geocentric position and the deep-space model's Greenwich angle follow that same rotation, the nutation and equation-of-equinoxes quantities are those of the IAU 1980 theory at an instant at most 0.01 day (their documented caching) from the requested one whatever was called before, and repeated calls agree.",
 ['inputs','histories'],"every day of the range x times around 0h/12h UT x longitudes; all short call histories of the cached quantities",
 NOT+"several independent copies of the formula exist and can diverge at isolated epochs.",
 ['src/lmst_hr.c','src/observe.c','src/zenith_site_ra.c','src/earthtilt.c','src/deep.c'],[('LMST','src/lmst_hr.c'),('observer position','src/observe.c'),('zenith RA','src/zenith_site_ra.c'),('nutation cache','src/earthtilt.c')],observe=['library calls, JSON lmst/gmst'])
prop('C17','Sun position and the sunlit flag are right everywhere on the orbit',
 "The Sun's right ascension (0 to 24 h) and declination are correct to 0.02 degrees for every date of 1950-2050, continuous through the seasons, and the reported Sun altitude, azimuth and sub-solar longitude are those of that position. A satellite is flagged sunlit if and only if the straight line from it to the Sun does not pass through the Earth's sphere.",
 ['inputs'],"every day of the range; satellite positions on a grid of directions and radii incl. the terminator and both sides of the Earth",
 NOT+"quadrant and shadow-geometry errors need whole-orbit coverage.",
 ['src/lpsun_radec.c',SK,SV],[('low-precision Sun','src/lpsun_radec.c'),('Sun ray / Earth intersection',SK+', '+SV)],observe=['library calls, JSON sun and sunlit'])
prop('C18','Every reported satellite quantity is consistent with its position',
 "In every returned entry RA lies in [0,360) and Dec in [-90,90] degrees and they are the topocentric direction of the satellite precessed to J2000 at start and end epochs; distance, geodetic latitude, longitude in [-180,180], altitude and equatorial angle describe the same position. Speed and position angle (0 to 360, north through east) are those of the motion from the start to the end direction over delta_time, including across RA=0 and near the poles, and the HEALPix number is the order-8 nested pixel containing the start direction.",
 ['inputs','configurations'],"satellite positions on a grid around the observer and the Earth (poles, RA=0 crossings in both directions, antimeridian) x sites x delta times",
 NOT+"wrap-arounds are hit only by particular geometry.",
 [SK,SV,'src/observe.c','HealpixC/chealpix.c'],[('topocentric direction and precession','src/observe.c'),('geodetic position',SK),('motion, pixel',SK)],observe=['stdout JSON'])
prop('C19','A failed TLE download never damages the local TLE repository',
 "When the retrieval script refreshes a repository, every target file ends up either with its complete new content or unchanged, whichever of the downloads fail and however they fail (HTTP error, no connection, time-out half way through the body, empty reply). Files are never written outside the given directory except the log, and a failure of one download does not prevent the others.",
 ['fault_sequences'],"every single and pairwise failing download x failure kind",
 NOT+"network failures do not occur in tests and the script is not tested.",
 ['scripts/tle_retrieve.sh'],[('download to temporary then rename','scripts/tle_retrieve.sh')],observe=['repository directory content'])
prop('C20','Satellite counts are those of the present TLE files',
 "For every content of a TLE repository (any of the listed files missing, empty or sharing satellites), tle_satcount.sh reports for each listed file that is present exactly the number of its element sets, in what it prints and in the PHP table; it lists every catalogue number of the non-debris files exactly once in order, and the two totals are the number of these and that number plus the debris entries. The result depends on the present files only, not on earlier runs, complete or interrupted at any point. Nothing but its own output files is written or removed, and nothing at all if the given directory does not exist.",
 ['inputs','crash_points','histories'],"every file alone and left out, all sharings of catalogue numbers up to a bound, all short histories of repository states, interruption before every call of a tool",
 NOT+"the tests do not run the script; left-overs of an interruption need a kill at a particular point.",
 ['scripts/tle_satcount.sh'],[('counting loops','scripts/tle_satcount.sh'),('unique catalogue numbers','scripts/tle_satcount.sh'),('PHP table','scripts/tle_satcount.sh')],observe=['repository directory content, stdout'])
prop('C21','Documents state the query carried out and describe their data',
 "In every document of sat_skymap and sat_visibility, input_params are those actually used after defaults, precedences and normalisation: the TLE or list file, the site (longitude modulo 360), MJD and UTC date denoting the requested instant (or both ends of the range), radius, time step and, in sat_skymap, the cap; the region centre is the one given, or the zenith at that instant when none is given, for a single satellite and with -E; gmst and lmst are the sidereal times of the (start) instant in hours, and azimuth, altitude and parallactic angle are those of the centre then, the Sun's separation being from that centre. Field descriptions are present whenever data are, have one item per datum, and name, type and unit fit the datum; geodetic positions are given and described exactly when requested or implied.",
 ['inputs','configurations'],"full product of sites x ways of giving the epoch x centres x modes x radius/step/cap values, for both tools",
 NOT+"one example output cannot show that the echoed values follow the options in all combinations.",
 [SK,SV,'src/dechalat2alt.c','src/lmst_hr.c'],[('input_params',SK+', '+SV),('field descriptions',SK+', '+SV)],observe=['stdout JSON'])
prop('C22','A refreshed TLE repository is complete and searchable',
 "After a refresh, whatever downloads failed, on whatever day and however the directory is named, special.txt holds exactly the complete entries of the special satellites present in the science, stations and active files then in the repository, plus for each spacecraft file there the one entry of the day (within a day of the clock), and nothing left from earlier refreshes; a search over it finds these. The two shipped list files name exactly the catalogue files that the script retrieves (with and without the debris files, and without the ISS segments file), so that after a complete refresh a search over either list succeeds and finds every satellite of those files, as many as the count script reports for it.",
 ['faults','histories','environment'],"every day of the spacecraft lists; all combinations of states of the source files; all histories of refreshes up to a length; every way of naming the directory",
 NOT+"the tests run neither the scripts nor a search over the lists; the clock and the failing downloads have to be scripted.",
 ['scripts/tle_retrieve.sh','scripts/tle_satcount.sh','ALL_merged.lis','ALL_merged_nodeb.lis',SK],[('special.txt','scripts/tle_retrieve.sh'),('lists','ALL_merged.lis'),('search over a list',SK)],observe=['repository directory content, stdout JSON'])
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(d,'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
