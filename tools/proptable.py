STD = ' Assumes real arithmetic for floats (NaN tracked) and the listed library models; parts named bounded_stand_ins in the evidence are runtime-checked only.'
PROPS = []
NA = []


def P(id, title, statement, q, why, files, mech, note, over=('inputs',), **k):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note+STD, over=list(over), **k))


P('T01', 'Calendar dates and continuous time are the same instants',
  'For every civil date and time of day from 1970 to 2099 the conversion to continuous time yields the number of seconds of the proleptic Gregorian calendar since 1970, and converting any such instant back yields exactly that date and time of day. Day-of-year counts from 1.0 at 1 January 00:00, dates outside 1970-2099 or with an impossible month give the null time, text forms parse and print the same instant, and comparison of instants agrees with their order.',
  'all dates, times of day and fractions of 1970-2099', 'The tests convert a handful of epochs; leap-year and month-boundary cases are sampled at best.',
  ['gnss.py'], [('epoch2time/time2epoch/time2doy/str2time/time2str', 'gnss.py')],
  'Calendar conversions proved for every date of 1970-2099; text parsing and printing bounded.')
P('T02', 'GPS, Galileo, BeiDou and UTC time are consistent labellings of one time line',
  'Converting any instant since a system\'s origin to week and second-of-week and back returns that instant, the second-of-week lying in [0, 604800); week/second pairs map to origin + 604800*week + second. UTC differs from GPS time by the number of leap seconds published for that date and converting there and back is the identity (outside an inserted second); BeiDou time lags GPS time by 14 s.',
  'all instants up to 2099, all weeks and seconds of week', 'Tests use a few weeks of one decade; boundaries of weeks and each leap-second step are not visited.',
  ['gnss.py'], [('gpst2time, gst2time, bdt2time and inverses; gpst2utc/utc2gpst; leap second table', 'gnss.py')],
  'All conversions proved for all instants, with an independent leap-second table.')
P('T03', 'Arithmetic on instants is exact and rollovers resolve to the nearest instant',
  'Adding seconds to an instant moves it by exactly that amount, keeps the fractional part in [0,1), leaves the argument unchanged and is inverted by the difference of instants. Resolving a week or day ambiguity against a reference returns an instant that differs by a whole number of periods and lies within half a period of the reference, and a GPS or GLONASS time of day is placed on the day nearest the reference.',
  'all instants and offsets within one and a half periods', 'Rollover only shows within half a period of a boundary, which the test data never crosses.',
  ['gnss.py', 'rinex.py', 'rawnav.py'], [('timeadd/timediff', 'gnss.py'), ('adjtime, tod2tow, glo2time, adjday', 'gnss.py, rinex.py')],
  'Proved for all instants and offsets.')
P('S01', 'Satellite numbers, PRNs and printed labels identify each other uniquely',
  'For every constellation and every PRN the numbering covers, conversion to the internal satellite number and back returns the same constellation and PRN; distinct satellites have distinct numbers in 1..N and every number in that range belongs to exactly one satellite. The printed three-character label names the constellation by its RINEX letter and reads back to the same satellite; letters and numbers outside the scheme are reported as unknown.',
  'all 233 satellite numbers, all constellations and PRNs', 'Tests print a few labels and never round-trip every constellation\'s limits.',
  ['gnss.py'], [('prn2sat, sat2prn, sat2id, id2sat, char2sys, sys2char, sys2str', 'gnss.py')],
  'Proved for all satellites and PRNs.')
P('S02', 'Signal codes follow RINEX and carry the right carrier frequency',
  'Every observation code RINEX defines for a constellation is accepted, prints back as the same code, and keeps its meaning when its type or attribute is replaced; a tracking attribute RINEX does not define for that constellation and band is refused. The carrier frequency and wavelength of every signal are those of the interface specifications (GLONASS FDMA from its channel), and signals compare equal exactly when constellation, type and code are equal.',
  'all constellations, bands, attributes, observation types and GLONASS channels', 'The test script prints one code per band and checks nothing about refusal or frequency values.',
  ['gnss.py'], [('signal class: parsing, printing, frequency', 'gnss.py'), ('physical constants', 'gnss.py')],
  'Decided exhaustively over all codes; GLONASS channels proved symbolically.')
P('B01', 'Bit-level copying and split-field extraction touch exactly the named bits',
  'Copying a bit string of any length between message buffers places exactly the source bits in the destination window and leaves every other bit of both buffers unchanged. A field stored in two or three parts is read as the concatenation of the parts, with two\'s-complement or sign-magnitude interpretation where asked for.',
  'all buffer contents, offsets and (for copying) lengths up to 300 bits and the 1695-bit L6 page', 'No test covers unaligned copies; errors in a partial trailing word only show for some lengths and offsets.',
  ['gnss.py', 'rawnav.py'], [('copy_buff', 'gnss.py'), ('getbitu2/3, getbits2/3, getbitg, u2s', 'rawnav.py')],
  'Proved for symbolic contents and offsets at every listed length.')
P('G01', 'Coordinates, local frames, line of sight and DOP are geometrically consistent',
  'Geodetic and Cartesian coordinates convert into each other on the WGS84 ellipsoid, the local frame is a right-handed orthonormal east-north-up triad whose inverse is its transpose, and azimuth/elevation recover the direction they were formed from. Geometric range is the Euclidean distance plus the earth-rotation term with a unit vector from receiver to satellite, the ionospheric pierce point lies on the line of sight at shell height, and dilution of precision uses exactly the satellites above the mask.',
  'all positions, heights and directions', 'Tests use one site; sign errors in other quadrants and near poles are invisible.',
  ['gnss.py'], [('geodist, xyz2enu, ecef2enu, pos2ecef, ecef2pos, satazel, ionppp, dops', 'gnss.py')],
  'Range, frame and height proved over all real inputs; inverse trigonometry, matrix inversion and the iterative inverse bounded.')
P('C01', 'The compact SSR mask fixes the satellites and signals of later messages',
  'Decoding a mask message yields, in mask order, exactly the satellites whose bits are set with their constellation, and for each exactly the signals selected by the signal mask or, when present, by its row of the cell mask. Every signal-mask position names the RINEX signal the compact SSR table assigns to it for that constellation. A mask with a new issue number keeps the superseded satellite list aside, one with the same issue does not, and the message sets the epoch and the reference hour of later messages.',
  'all message contents, bit offsets, satellite, signal and cell masks', 'Sample logs contain a handful of masks; most mask positions and cell patterns never occur in them.',
  ['cssrlib.py'], [('decode_cssr_mask, decode_mask, ssig2rsig, gnss2sys', 'cssrlib.py')],
  'Signal tables exhaustive; mask layout proved for all header values, offsets and cell-mask contents on listed mask patterns; other patterns are executed at random.')
P('C02', 'Compact SSR orbit and clock corrections reach the right satellite unscrambled',
  'Orbit, clock and combined messages give every satellite of the current mask (or of the network\'s satellite selection) its own issue of data, radial/along/cross and clock value with the specified field width and scale, a not-available pattern becoming NaN, and no other satellite any value. The decoder consumes exactly the message, records its epoch, update interval, issue and reception flag, refuses a combined message of another mask and a clock message before any mask, and leaves other networks\' corrections untouched.',
  'all message contents and offsets for satellite lists up to three satellites of mixed constellations', 'A cursor or width error only shows for particular constellation mixes and field values.',
  ['cssrlib.py'], [('decode_cssr_orb, decode_cssr_clk, decode_cssr_comb, decode_orb_sat, decode_clk_sat', 'cssrlib.py')],
  'Proved for all message contents on the listed satellite lists (0 to 3 satellites).')
P('C03', 'Code and phase biases reach the right satellite and signal',
  'Code bias, phase bias and combined bias messages assign to each satellite of the mask (or of the network selection) and each of its signals the bias at that position with the specified scale, phase biases also their discontinuity indicator, not-available patterns becoming NaN. Code biases are keyed by code signals and phase biases by carrier signals; only the parts announced by the message are replaced, only in the announced network, and the message is consumed exactly.',
  'all message contents and offsets for lists of up to three satellites with one to three signals', 'Sample logs exercise one network and always both bias kinds.',
  ['cssrlib.py'], [('decode_cssr_cbias, decode_cssr_pbias, decode_cssr_bias', 'cssrlib.py')],
  'Proved for all message contents on the listed satellite lists.')
P('C04', 'Quality indices mean the same accuracy when decoded and when encoded',
  'A class/value pair denotes 3^class*(1+value/4)-1 millimetres, (0,0) meaning undefined (NaN) and (7,7) more than 5.4665 m, and encoding that accuracy yields the same class and value. The accuracy message gives each satellite of the current mask its own value and is refused when it belongs to another mask.',
  'all 64 indices, all message contents', 'Rounding in the inverse only fails for some of the 62 invertible indices.',
  ['cssrlib.py'], [('quality_idx, quality2qi, decode_cssr_ura', 'cssrlib.py')],
  'Indices exhaustive; message proved for all contents on lists of up to three satellites.')
P('C05', 'Ionosphere and troposphere corrections are decoded per network and grid point',
  'The slant-delay, gridded and combined atmosphere messages store for their network exactly the announced parts: zenith-delay polynomial and wet residual per grid point, and per selected satellite its quality, slant polynomial coefficients of the announced type and slant residual per grid point, each with the specified width and scale and NaN when not available. Parts not announced are not altered, the mapping-function coefficients are those of the network\'s latitude, the message is consumed exactly, and a message of another mask is refused without effect.',
  'all message contents and offsets; networks of up to three satellites and five grid points', 'Each combination of part flags, types and sizes shifts all later fields; logs contain few of them.',
  ['cssrlib.py', 'gnss.py'], [('decode_cssr_stec, decode_cssr_grid, decode_cssr_atmos, decode_cssr_stec_coeff', 'cssrlib.py')],
  'Proved for all contents on up to two satellites and three grid points; larger networks executed at random.')
P('C06', 'A compact SSR stream is decoded message by message with the right epoch',
  'Concatenated messages are decoded as each would be alone, in order, each starting where the previous one ended, until a foreign message type or a refused message stops decoding without changing any correction. The epoch of a message is the reference hour plus its offset; corrections are reported ready exactly when every needed kind was received, expire when older than their validity limit, and service-information blocks are stored at their position.',
  'all message contents, epochs and ages', 'Stopping and expiry conditions depend on histories that a replayed log does not contain.',
  ['cssrlib.py'], [('decode_cssr, decode_head, chk_stat, check_validity, decode_cssr_sinfo', 'cssrlib.py')],
  'Proved for all contents on listed message sequences of up to three messages.', over=('inputs', 'histories'))
P('C07', 'Network corrections are interpolated from the right grid points',
  'The network used is the one owning the grid point nearest to the receiver; the weights of its surrounding points are positive, sum to one, are inversely proportional to distance and reduce to the nearest point within 5 km. Zenith and slant delays are the announced polynomial at the offset from the network\'s reference point plus the weighted residuals, each part only if the network announced it, per satellite.',
  'all receiver positions, grids, coefficients and residuals', 'Tests use one receiver position and one network.',
  ['cssrlib.py'], [('find_grid_index, get_dpos, get_trop, get_stec', 'cssrlib.py')],
  'Interpolation proved for all real inputs on listed sizes; the nearest-point search is a bounded runtime check.')
P('C08', 'L6 data parts are joined in order and mixed facilities are rejected',
  'A QZSS L6 message with the right preamble contributes its 1695 data bits at the next place of the frame, the first part starting a new frame and keeping the previous one aside. A message from another facility, or without a started frame, is rejected and the frame stays unchanged until a new first part arrives; a wrong preamble changes nothing.',
  'all message contents, byte offsets, facilities and frame states', 'Facility switches and lost first parts are rare events absent from the logs.',
  ['cssrlib.py', 'gnss.py'], [('decode_l6msg, copy_buff', 'cssrlib.py, gnss.py')],
  'One step proved for all contents and states; the five-part composition executed.', over=('inputs', 'histories'))
P('E01', 'The broadcast ephemeris selected is the right one for satellite, time and issue',
  'Without a requested issue of data the ephemeris used is one of the requested satellite and message type, within the validity time of its constellation, and none of the others qualifying is nearer in time; with a requested issue it is one with exactly that issue, also within validity. No ephemeris is returned only when none in the list qualifies, and times are compared modulo a week where a week rollover can occur.',
  'all times, issues, message types, satellites, for lists of up to three ephemerides', 'Logs hold fresh ephemerides in order; expiry, duplicate issues and rollovers do not occur.',
  ['ephemeris.py'], [('findeph, dtadjust', 'ephemeris.py')], 'Proved for all field values on lists of up to three ephemerides, every constellation.')
P('E02', 'Broadcast orbits, velocities and clocks follow the interface specifications',
  'Satellite position, velocity and clock computed from Keplerian ephemerides equal the user algorithms of the interface specifications for every constellation (including CNAV rates and the BeiDou geostationary rotation), and the velocity is the rate of the position. GLONASS orbits integrate the specified equations of motion over exactly the time since the reference epoch, and clock offsets follow the broadcast polynomial, with the relativistic term where stated.',
  'all ephemeris parameters and times within the validity range', 'A sign error in one harmonic coefficient moves a satellite by metres at some epochs and vanishes at others.',
  ['ephemeris.py', 'gnss.py'], [('eph2pos, geph2pos, deq, glorbit, eph2clk, eph2rel', 'ephemeris.py')],
  'Formulas proved over all real parameters given a solution of Kepler\'s equation; convergence of the Kepler iteration and numerical differentiation bounded.')
P('E03', 'SSR corrections are used only with the mask and ephemeris issue they refer to',
  'A satellite position with SSR corrections is produced exactly when the satellite belongs to the mask its orbit and clock corrections refer to (or their clock issues agree, for BeiDou), both corrections are present and valid, and a valid ephemeris of exactly the corrected issue exists; otherwise the satellite is reported unavailable and not counted. When used, the position is the broadcast position at transmission time minus the correction along the orbit axes of the service, the clock is corrected in metres over the speed of light with rates where the service has them, and stored corrections are unchanged.',
  'all correction states, issues, masks, ephemerides and epochs', 'Mask changes, missing clocks and issue mismatches are transient states that logs rarely contain.',
  ['ephemeris.py', 'gnss.py'], [('satpos, satposs', 'ephemeris.py')], 'Proved for all decoder states over the single-satellite case of each service, with the broadcast orbit replaced by its contract (E02).', over=('inputs', 'histories'))
P('L01', 'Ambiguity decorrelation is an exact integer change of variables',
  'Factorising a covariance matrix yields a unit lower triangular matrix and positive diagonal whose product is the matrix. Decorrelation returns an integer matrix of determinant one with an integer inverse such that the transformed covariance is exactly the product of the returned factors, the inverse transpose returned matches it, and each neighbouring pair satisfies the reduction condition.',
  'all covariance matrices of the listed sizes', 'A wrong entry only shows when a swap or a large integer shift occurs for the particular covariance.',
  ['mlambda.py'], [('ldldecom, reduction', 'mlambda.py')], 'Factorisation proved for sizes 1-4 and reduction for sizes 2-4 with a loop invariant (no bound on iterations); larger sizes executed.')
P('L02', 'The integer ambiguities returned are the closest ones',
  'The search returns distinct integer vectors in ascending order of distance, the distances are those in the metric of the covariance, and no other integer vector is closer than the ones returned. Partial resolution fixes the largest subset reaching the requested success rate and conditions the others on it, and otherwise keeps the float solution.',
  'all covariances and float ambiguities (proof for up to three ambiguities, larger sizes sampled)', 'The search tree depends on every input; a wrong candidate only appears for unlucky float ambiguities.',
  ['mlambda.py'], [('msearch, estimILS, parsearch, mlambda, sr_boost', 'mlambda.py')], 'Both searches proved by loop invariant, without bound on iterations, for every factor and float ambiguity at one and two ambiguities and for one listed factor at three (partial correctness: termination is not proved); the composition of factorisation, decorrelation, search and partial resolution proved with those functions replaced by their contracts. Up to eighteen ambiguities by run-time contracts against independent enumeration (bounded).')
P('F01', 'Filter states have their own place, start and propagate as configured',
  'Position, velocity, troposphere, ionosphere and ambiguity states never share an index whatever states are enabled, start with the configured variances, and options given to one positioning object affect no other. Propagating to an epoch moves positions by velocity times the elapsed time and adds process noise once, resets ambiguity and ionosphere states of satellites that were lost too long or slipped or edited, initialises new ones from code minus carrier, and leaves everything else unchanged.',
  'all option combinations, states, covariances, outages and observations', 'Tests run one configuration; the index arithmetic depends on which states are enabled.',
  ['pppssr.py', 'gnss.py', 'ppprtk.py', 'rtk.py'], [('pppos.__init__, udstate, initx, IB, II, IT; default configuration', 'pppssr.py, gnss.py')],
  'Indices and propagation proved (propagation over small satellite worlds); construction executed for every option combination.', over=('inputs', 'histories'))
P('F02', 'Between-satellite differences, design matrix and noise belong together',
  'Each accepted satellite contributes for each signal and type one residual difference to the highest accepted satellite of its constellation, reduced by exactly the states whose coefficients the design-matrix row holds: line of sight, troposphere mapping, ionosphere with opposite signs for code and carrier, and wavelength times ambiguity of both satellites. The noise is that of the two measurements with the reference shared within a group and none across groups, and edited or missing measurements contribute nothing.',
  'all residuals, states, elevations and edit flags for the listed satellite sets and options', 'Sign or index errors cancel in single-frequency GPS-only data.',
  ['pppssr.py'], [('sdres, ddcov, varerr, sysidx', 'pppssr.py')], 'Proved for all real inputs on the listed satellite sets (three to four satellites, one or two frequencies).')
P('F03', 'The measurement update is the minimum-variance update',
  'The updated state is the prior state plus gain times innovation and the updated covariance is the prior covariance minus gain times design times prior covariance, with the gain of the given design and noise matrices; for symmetric inputs the result stays symmetric and positive, and the inputs are not modified. The noise of differences is assembled per group with the reference variance shared.',
  'all states, covariances, designs and noises of the listed sizes', 'Numerical tests on one data set tolerate gain errors that still converge.',
  ['pppssr.py'], [('kfupdate, ddcov', 'pppssr.py')], 'Proved as polynomial identities for the listed sizes; larger sizes executed.')
P('F04', 'Unusable observations are edited out, and base and rover satellites are matched',
  'An observation is accepted exactly when its satellite is healthy, has an orbit and is not excluded, is above the elevation mask, has code, carrier and sufficient signal strength on every signal, shows no loss of lock and no geometry-free jump beyond the threshold; otherwise the corresponding signal is edited. In relative positioning exactly the satellites common to both stations are differenced, each with its own base residual, and the slip memory of base and rover is kept apart.',
  'all observations, thresholds, lock indicators and previous epochs for one observed satellite among others', 'Each rejection reason occurs rarely in recorded data, and mixed up base and rover rows look plausible.',
  ['pppssr.py', 'rtk.py'], [('qcedit, base_process', 'pppssr.py, rtk.py')], 'Proved per satellite with the others accepted; full-size base matching executed.', over=('inputs', 'histories'))
P('F05', 'Every correction enters the residuals once and with its sign',
  'The code and carrier residual is the observation minus geometric range at the tide-corrected position plus satellite clock, Shapiro delay, mapped troposphere, ionosphere (code plus, carrier minus, scaled by frequency), receiver and satellite antenna terms and wind-up in the wavelength of the signal, corrected for the biases of the satellite and signal with the sign of the service, network biases added to the global ones. A satellite that is edited, below the mask, or lacks a required bias, antenna term or network delay gets no residual, and the antenna reference signals are those of the service.',
  'all observations and correction values for every service, option and constellation pair', 'A correction missing or doubled changes a filter solution by centimetres that the ambiguities absorb.',
  ['pppssr.py'], [('zdres, find_bias', 'pppssr.py')], 'Proved over all real values for a pair-covering sample of services, options and satellites; every combination executed at random.')
P('F06', 'Ambiguities are fixed in pairs, by the ratio test, and applied consistently',
  'Differenced ambiguities pair each usable satellite above the mask with the first usable one of its constellation and frequency; the integers are accepted only if resolution succeeded and passes the ratio test (or success-rate mode). Accepted integers update position and covariance by the conditional minimum-variance formula and restore single differences consistent with the integers while the float solution is unchanged, holding adds one tight constraint per pair, and an epoch without enough satellites changes nothing.',
  'all states, covariances, integers, ratios and satellite states in a world of five satellites', 'Reference changes and rejected fixes depend on histories absent from the test data.',
  ['pppssr.py', 'rtk.py'], [('ddidx, resamb_lambda, restamb, holdamb, process', 'pppssr.py')], 'Proved for one or two pairs of ambiguities, the integer search replaced by its contract (L02).', over=('inputs', 'histories'))
P('H01', 'Galileo HAS messages: every block reaches the satellites of its mask',
  'Each block announced by a Galileo HAS message (mask, orbits, clocks, clock subset, code and phase biases) is read at its place and gives each satellite and signal of the current mask its value in metres, the clock multiplied by the factor of its system and the phase bias converted from cycles, with the epoch of the message; blocks not announced leave their corrections unchanged, a clock subset changes only its satellites. A message for a mask that was not received, of another type or with an invalid hour is refused without changing anything.',
  'all message contents over the listed masks and block combinations', 'Clock subsets, phase biases and mask changes are not in the recorded data.',
  ['cssr_has.py', 'cssrlib.py'], [('decode_cssr, decode_head, decode_cssr_clk_sub, decode_pbias_sat', 'cssr_has.py'), ('decode_cssr_mask, _orb, _clk, _cbias, _pbias', 'cssrlib.py')],
  'Proved for all contents for listed satellite lists (pairs of block combinations sampled; all executed).', over=('inputs', 'histories'))
P('H02', 'Any sufficient set of HAS pages restores exactly the message',
  'Whatever the order, repetition and loss of the encoded pages received, as soon as as many different pages of one message arrived as the message has parts, exactly the original message is returned, once; before that nothing is returned. Pages of other messages, dummy pages and pages of unusable status do not contribute.',
  'page numbers, orders, repetitions, message sizes of up to 32 parts', 'Recorded data have pages in one particular order without losses.',
  ['cssr_has.py'], [('decode_cnav, decode_has_page', 'cssr_has.py')],
  'Collection of pages and the moment of decoding proved for all page contents; the finite-field linear algebra (external library) is checked on random page histories against an independent encoder (bounded).', over=('inputs', 'histories'))
P('H03', 'BeiDou B2b messages reach the satellites of their slots',
  'Mask, orbit, bias, clock, accuracy and combined B2b messages are read at their places: every block goes to the satellite of its slot or mask position with its issue, value in metres (clock sign reversed) and epoch, a block for a satellite outside the mask is skipped without disturbing the following ones, and the superseded clock is kept under its issue. A message of another mask or SSR issue changes nothing, and a new mask drops the corrections of the old one.',
  'all message contents over listed masks and slot sequences', 'Only a part of the message types occurs in the logs, and issue changes are rare.',
  ['cssr_bds.py'], [('decode_cssr and all decoders, slot2prn, sval, ssig2rsig', 'cssr_bds.py')],
  'Proved for all contents for the listed masks and slot sequences.', over=('inputs', 'histories'))
P('H04', 'SouthPAN PPP corrections are stored per satellite and expire',
  'Each PPP-via-SouthPAN correction message stores the orbit, velocity, clock and drift corrections of its satellite with the issue of the navigation data and the epoch nearest to reception, ignores undefined slots, and corrections older than 120 s are no longer applied while fresh ones are kept. Compressed SISNeT text expands to exactly the digits it abbreviates.',
  'all message contents, slots, epochs and ages', 'Slots, day rollovers and ages at the limit do not occur in the recorded data.',
  ['cssr_pvs.py'], [('decode_cssr, decode_cssr_orb, slot2sat, tod2tow, check_validity, decode_sinca_line', 'cssr_pvs.py')],
  'Proved for all contents; text expansion executed.', over=('inputs', 'histories'))
P('H05', 'QZSS MADOCA ionosphere corrections belong to the area of the receiver',
  'Area messages store the shape and reference of each area without touching others, ionosphere messages store the coefficients of their satellites with epoch and issue under the index of their area, and areas never share an index. A position selects an area that contains it (rectangle or circle, at any longitude), and the delay of each satellite is the polynomial of its coefficients at the offset from the reference point.',
  'all message contents, positions, areas and coefficients', 'Recorded data lie inside one rectangular area of one region.',
  ['cssr_mdc.py'], [('decode_cssr, decode_mdc_stec_area, decode_mdc_stec_corr, find_grid_index, get_inet, get_dpos, get_stec', 'cssr_mdc.py')],
  'Decoding and interpolation proved; area search (trigonometric) bounded.')
P('V01', 'SBAS L1 messages reach the satellites of the mask',
  'The PRN mask lists its satellites in order, and fast, mixed and long-term corrections, integrity, degradation and covariance messages give each satellite at the announced place of the current mask its value in metres with the epoch of reception, the sign turned into a correction; blocks or halves of another mask and places beyond it change nothing. The GEO ephemeris, almanac, degradation and service messages are read at their places with the time nearest to reception.',
  'all message contents over the listed masks and windows of mask bits', 'Mixed messages, mask changes, partly filled blocks and covariance messages are not in the recorded data.',
  ['sbas.py', 'cssrlib.py'], [('decode_cssr and the decode_sbas_* decoders, add_sbas_corr, mask2sat, decode_cov', 'sbas.py')],
  'Proved for all contents for listed masks, block numbers and half-message layouts.', over=('inputs', 'histories'))
P('V02', 'DFMC SBAS messages reach the satellites of their slots',
  'The dual-frequency mask lists the satellites of its slots in order; a correction message stores orbit, clock, rates, covariance and integrity of exactly the satellite of its slot with the epoch nearest to reception, and undefined slots change nothing. Integrity changes and lists apply to the satellites at their place of the current mask only, the two parts of the SBAS ephemeris are joined only under one issue, and corrections older than 120 s are no longer applied.',
  'all message contents over listed slots, mask sizes and windows', 'Integrity messages, ephemerides and day rollovers are rare or absent in the recorded data.',
  ['sbas.py'], [('decode_cssr, decode_dfmc_*, decode_cssr_orb, add_dfmc_corr, slot2sat, check_validity, decode_tvs_mc', 'sbas.py')],
  'Proved for all contents for listed slots and mask sizes.', over=('inputs', 'histories'))
P('V03', 'The SBAS ionospheric delay is interpolated from the monitored grid points',
  'The grid points of each band are those of DO-229; a grid mask and the delay messages of the same issue give each point its delay and indicator and leave others unchanged, and delays of a superseded mask are dropped. At a pierce point the four corners of its cell are used when they are monitored, the delay is the bilinear interpolation of four or the plane through three points enclosing it, scaled by the slant factor, and no delay is given otherwise.',
  'all delays, places within the listed cells, and subsets of available corners', 'Recorded data always have four monitored points in one band.',
  ['sbas.py'], [('init_sbas_gp, decode_sbas_igpmask, decode_sbas_iono, searchIGP, ionoSBAS', 'sbas.py')],
  'Proved; beyond 85 degrees only the grid table is covered.', over=('inputs', 'histories'))
P('R01', 'RTCM framing: intact frames are accepted and reach the decoder of their number',
  'A frame is accepted exactly if all its octets are present and the checksum over the whole frame vanishes, so that no disturbed or incomplete frame is decoded, and written frames are accepted by the receiver. Every message number is given to exactly the decoder of that message and its result is returned as observation or ephemeris of the right kind; unknown, masked and skipped numbers change nothing.',
  'frame lengths and remainders, all 4096 message numbers', 'Recorded data contain some twenty message numbers and no disturbed frames.',
  ['rtcm.py'], [('sync, checksum, decode, set_sync, set_len, set_checksum', 'rtcm.py')],
  'Proved with the checksum library replaced by an arbitrary remainder; error detection of the real checksum executed.')
P('R02', 'RTCM MSM: every cell gives its satellite and signal its observation',
  'A multiple signal message of any constellation and type gives each satellite and signal of its masks and cell mask the pseudorange, carrier phase in cycles of that signal, signal strength and loss of lock its cells hold, missing measurements staying zero. The epoch is the instant of the message in GPS time within the current week, loss of lock is reported when the lock time of that satellite and signal did not grow, and messages with too large a cell mask give no observations.',
  'all message contents for listed masks of one to three satellites and signals, all types and constellations', 'The logs have few constellations and types and no missing cells or unknown GLONASS channels.',
  ['rtcm.py'], [('decode_msm, decode_msm_time, msm2rsig, msmtype', 'rtcm.py')],
  'Proved for all contents for the listed masks (a pair-covering sample of their combinations).', over=('inputs', 'histories'))
P('R03', 'RTCM and IGS SSR corrections reach the satellites and signals the message names',
  'Orbit, clock, combined, high-rate clock, accuracy, code and phase bias messages of RTCM and IGS SSR give every satellite of the message, and every signal, its values with the field widths and units of the format, the header, epoch and issue numbers, and nothing to others; messages of one epoch accumulate and a later epoch replaces. What the encoder writes is read back as the same corrections.',
  'all message contents for listed satellite and signal lists', 'Message kinds other than those of one provider and GLONASS epochs do not occur in the logs.',
  ['rtcm.py'], [('decode_head, decode_cssr_*, decode_igsssr, decode_time, ssig2rsig', 'rtcm.py'), ('encode_head, encode_cssr_*', 'rtcm.py')],
  'Proved for all contents for the listed satellite and signal lists.', over=('inputs', 'histories'))
P('R04', 'RTCM ephemerides and station messages give every field its value and unit',
  'The ephemeris messages of GPS, Galileo, BeiDou, QZSS, NavIC, GLONASS and SBAS give each orbital element, clock term, issue, health and accuracy the value of its field with its width, sign and unit, the times being placed in the week nearest to the current one. Station position, antenna and receiver descriptions and GLONASS bias messages give exactly the fields they contain.',
  'all message contents', 'Sign and width errors show only for field values that the few satellites of a log do not have.',
  ['rtcm.py'], [('decode_gps_eph and the other ephemeris decoders, adjustweek, decode_sta_pos, decode_ant_desc, decode_glo_bias', 'rtcm.py')],
  'Proved for all message contents.')
P('P01', 'Standalone positioning: models, smoothing and updates follow their definitions',
  'The broadcast ionospheric delay is the Klobuchar model scaled to the frequency of the signal, the carrier-smoothed pseudorange is the weighted mean of code and carrier prediction starting again after a gap, a missing measurement or a jump of that satellite, and each residual is the observation minus geometric range, satellite clock and delays of that satellite. Every residual, and nothing else, enters the update with its own direction, clock and variance, and position and clock are propagated and corrected from epoch to epoch.',
  'all observations, states and covariances in a world of a few satellites', 'Gaps, jumps, missing measurements and signals other than L1 are not in the test data.',
  ['pntpos.py'], [('stdpos: csmooth, zdres, sdres, udstate, process', 'pntpos.py'), ('ionKlobuchar, ionmodel', 'pntpos.py')],
  'Proved; trigonometric functions are uninterpreted or the geometry is fixed to listed places.', over=('inputs', 'histories'))
P('D01', 'QZSS SLAS: corrections reach their satellites; the nearest station is used',
  'A correction message stores for exactly the satellites of the mask that have a correction and an issue of data their range correction in metres, under the station it names; messages of another mask or issue or of an unhealthy station change nothing, and station positions, masks and health flags are those of their messages with unused slots skipped. The corrections in use are those of the station nearest to the receiver, a station without corrections does not replace them, and values older than 120 s are dropped.',
  'all message contents for listed masks, stations and issue states', 'Health messages, empty slots and mask changes do not occur in the recorded data.',
  ['dgps.py', 'cssrlib.py'], [('decode_mt47 to decode_mt51, decode_cssr, set_dgps_corr, get_station, check_validity', 'dgps.py')],
  'Proved for all contents for listed masks; nearest station and variance model executed.', over=('inputs', 'histories'))
P('A01', 'OSNMA keys: only a root key signed by a trusted public key is ever trusted',
  'The root key and parameters in use are those of a complete DSM-KROOT whose padding matches; they count as verified only after the signature over exactly them was checked with the public key of their number, a different root key drops that state and a refused message changes nothing. A new public key is stored only if it is a leaf of the loaded Merkle tree, blocks of the messages are collected in any order and used only when all blocks of that message and chain are there, and two decoders share nothing.',
  'all message contents, orders and losses of blocks, all key and tag sizes', 'Forged, reserved and interrupted messages do not occur in recorded data, and there is no test of the module.',
  ['osnma.py'], [('decode_dsm_kroot, verify_pdk, verify_root_key, decode_dsm_pkr, verify_pdp, decode_hk', 'osnma.py')],
  'Hashes and signature verification are arbitrary functions in the proof (assumed: their cryptographic strength); P-521 signatures are not supported by the code.', over=('inputs', 'histories'))
P('A02', 'OSNMA: only data with a valid tag under the verified key chain become authentic',
  'A disclosed key is used only if hashing it once per sub-frame elapsed leads to the last verified key, or to the root key; the tags of the previous sub-frame are used only under such a key and if look-up table and sequence are verified, and each tag covers satellite, source, time, number, status and exactly the complete navigation data of one issue sent one sub-frame before it. Data are reported authentic exactly after enough valid tags, delayed tags being checked once after 300 s.',
  'all contents, times, tables, key and tag sizes, losses of pages', 'Forged chains and tags, week boundaries and other tables do not occur in recorded data, and there is no test of the module.',
  ['osnma.py'], [('decode, verify_key_chain, update_key_chain, verify_maclt, verify_macseq, gen_msg, verify_navmsg', 'osnma.py'), ('decode_mack, decode_tags_info, save_gal_inav, gen_gal_inavmsg, gen_gal_utcmsg', 'osnma.py')],
  'Proved with arbitrary hash and MAC functions (number of chain steps listed); the whole receiver is executed against an independent transmitter and forgeries with the real functions.', over=('inputs', 'histories'))
P('A03', 'QZNMA: a message is authentic only if the signature received for it covers it',
  'A signature is put together only from its three parts received one after the other, and is checked, with the public key of its own key number, over exactly the bits of the three messages that follow it, or of the stored message of the satellite, kind and issue it names at the time it gives. A satellite and issue counts as authentic exactly after such a check succeeded; incomplete, reordered, forged or unknown ones never do, and a lost part, a new key or the end of the week does not stop later authentication.',
  'all message contents, orders and losses of parts and messages, times of the week', 'There is no test of the module, and losses, key changes and week boundaries do not occur in samples.',
  ['qznma.py'], [('decode, gen_rds, msg2nav, verify_qzss_nav', 'qznma.py'), ('decode_gnss_rds, verify_gnss_nav, *_to_mnav, chk_gps_lnav, chk_gps_cnav', 'qznma.py')],
  'Signature verification is an arbitrary function in the proof; whole receivers, with message files and real signatures, are executed against independent transmitters. The bits excluded from signatures are taken from the code (the interface document is not available offline).', over=('inputs', 'histories'))

P('N01', 'Raw navigation messages give complete ephemerides of one issue',
  'An ephemeris comes out of the raw navigation messages of a satellite exactly when all parts it is composed of have been received and belong to one issue (or one frame, where messages carry no issue), whatever was received before. Every parameter in it is then the transmitted field of the latest parts at its place, with its sign and unit. Its week, epoch of orbit, epoch of clock and transmission time lie next to each other and in the time system of the satellite, also where the week or a rolled-over week number ends between them.',
  'all message contents, stored parts and times of the week of LNAV, CNAV, CNAV-2, I/NAV, F/NAV, D1, D2, B-CNAV1/2/3, NavIC and GLONASS messages', 'The module has no test of message contents; boundaries of weeks and issues hardly occur in recordings.',
  ['rawnav.py'], [('RawNav.decode_*, adjweek, set_bds_cnav_time, gep2time, rcvDec.init_sig_tab', 'rawnav.py')],
  'Layouts of fields are transcribed from the interface documents as known (no documents offline); spare fields, iono and UTC parameters (not kept by the code) and manoeuvre data of GLONASS CDMA are not specified. Accuracy indices and UTC are contracts of their own.', over=('inputs', 'histories'))
