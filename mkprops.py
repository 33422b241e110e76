import json
def P(id,title,st,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    return d
L=[
P('P01','Satellite-system letters form a bijection and every other letter is rejected',
 'Every satellite system is printed as its RINEX letter, and parsing that letter gives the system back. Any other character is rejected by an exception, never mapped to a system. The physical constants a system exposes (gravitational parameter, earth rotation, nominal band frequencies) are those of its interface document.',
 ['inputs'],'all 256 characters, all 8 systems','the only test of the area prints a few codes; a swapped pair of letters for a rarely used system passes',
 ['src/satsys.cpp','src/satsys.hpp'],[('char_to_satsys / satsys_to_char','src/satsys.cpp'),('satellite_system_traits','src/satsys.hpp')]),
P('P02','Observation-type letters form a bijection and every other letter is rejected',
 'Every observation type is printed as its RINEX letter and parsing that letter gives the type back. Any other character is rejected by an exception.',
 ['inputs'],'all 256 characters, all 7 types','testObsType exercises the letters it lists; it asserts nothing about the remaining characters or the round trip',
 ['src/gnssobs.cpp'],[('char_to_observabletype / observabletype_to_char','src/gnssobs.cpp')]),
P('P03','Observation codes parse, print and compare faithfully',
 'A text of type letter, band digit and optional attribute parses to exactly those components, prints back to the same text, and any text that is too short, has an unknown type letter or a band that is not a digit is rejected. Two codes are equal exactly when type, band and attribute are equal. No text, however malformed, is read beyond its terminator.',
 ['inputs'],'all texts of any length, all pairs of codes','tests parse a handful of valid codes; invalid bands and texts shorter than three characters never occur in them',
 ['src/gnssobs.cpp','src/gnssobs.hpp'],[('ObservationCode(const char *) / to_string','src/gnssobs.cpp'),('ObservationCode::operator==','src/gnssobs.hpp')]),
P('P04','Nominal carrier frequency of every system and band',
 'Asking for the nominal frequency of a band gives the carrier frequency RINEX 3.04 defines for that system and band. A band the system does not have is rejected by an exception; no other number is ever returned.',
 ['inputs'],'every system, every 32-bit band number','tests look at a few GPS bands; a wrong digit in one table entry, or a default for unknown bands, is not seen',
 ['src/satsys.hpp'],[('satellite_system_traits<S>::band2freq tables and band2freq','src/satsys.hpp')]),
P('P05','Frequency of a linear combination is the sum of its terms',
 'The frequency of an observable is the sum over its terms of coefficient times nominal frequency; terms of systems without a fixed carrier contribute nothing. If any term has a band its system does not have, the request is rejected by an exception the caller can catch. This holds for any number of terms, systems and coefficients, in whatever way the terms were added.',
 ['inputs','histories'],'any number of terms, every system, band and coefficient','tests build one ionosphere-free combination of two GPS bands',
 ['src/gnssobsrv.cpp','src/gnssobsrv.hpp'],[('__ObsPart::frequency','src/gnssobsrv.cpp'),('GnssObservable::frequency / add','src/gnssobsrv.hpp')]),
P('P06','Observables compare as multisets of terms; mixed systems are detected',
 'Two observables are equal exactly when they hold the same terms with the same multiplicities and coefficients, in any order; equality is reflexive and symmetric and inequality is its negation. An observable is of mixed satellite systems exactly when two of its terms belong to different systems.',
 ['inputs','histories'],'all observables; equality for up to three terms each, mixed-system detection for any number of terms','no test compares observables whose terms are permuted or repeated',
 ['src/gnssobsrv.hpp'],[('GnssObservable::operator== / is_of_mixed_satsys','src/gnssobsrv.hpp'),('GnssRawObservable::operator==','src/gnssobsrv.hpp')]),
P('P07','Receiver antenna names are 20 columns with NONE for a missing radome',
 'A receiver antenna built from any text carries exactly its first 20 characters padded with blanks, with a blank or missing radome replaced by NONE, and no serial number. Building an antenna never reads or writes outside the text and the antenna. Two antennas are of the same model exactly when these 20 columns agree.',
 ['inputs'],'texts of every length and content','testAntenna builds a few well-formed names; short texts, blank radomes and over-long texts are where buffers and padding go wrong',
 ['src/antenna.cpp','src/antenna.hpp'],[('ReceiverAntenna constructors, copy_from_cstr, radome_is_empty, set_none_radome, compare_model','src/antenna.cpp')]),
P('P08','Receiver antenna serial numbers: storage, comparison, identity',
 'Setting a serial stores its first 20 characters padded with blanks, replaces any earlier serial completely and leaves model and radome alone. A serial compares equal to a text exactly when both agree up to blank padding; an antenna without a serial matches no non-blank serial. Two antennas are the same antenna exactly when both have a non-blank serial and model, radome and serial agree.',
 ['inputs','histories'],'all antennas, all serial texts of any length, any earlier serial','testAntenna checks one short serial; replacing a longer serial by a shorter one or comparing serials of unequal length is not covered',
 ['src/antenna.cpp'],[('set_serial_nr, compare_serial, has_serial, is_same','src/antenna.cpp')]),
P('P09','Satellite antenna types keep their text and compare by it',
 'A satellite antenna keeps the first 20 characters of the text it was given and nothing of an earlier text, and reports them back terminated. It compares equal to a text exactly when the two agree in their first 20 characters. No text is read beyond its terminator.',
 ['inputs','histories'],'texts of every length and content, any earlier text','no test compares satellite antennas',
 ['src/antenna.cpp','src/antenna.hpp','src/antenna_pcv.hpp'],[('SatelliteAntenna copy_from_cstr, is_same, to_string','src/antenna.cpp')]),
P('P10','Blank trimming and emptiness of arbitrary text',
 'Trimming from the end removes exactly the trailing blanks, trimming up to the first blank cuts exactly there, trimming from the left removes exactly the leading blanks, and a text is empty exactly when it consists of blanks. The reported positions delimit the result, an explicit limit restricts everything to that many characters, and neither an empty text nor a limit beyond its end causes a read outside it.',
 ['inputs'],'texts of every length below 2 GB and content, every limit','these functions have no test; the loops run over text of any length',
 ['src/nvarstr.cpp','src/nvarstr.hpp'],[('StrSearchPolicyStart/End::rtrim, ltrim, string_is_empty','src/nvarstr.cpp')]),
P('P11','Fortran-formatted numbers are read from their own columns',
 'Rewriting a Fortran line turns every D or d exponent letter into E and changes nothing else, for any line length. Well-formed fixed-width numbers are each read from their own columns only, also when adjacent columns leave no blank between them. A field that holds no number is rejected.',
 ['inputs'],'lines of every length; four adjacent 19-column numbers with every sign, digit and exponent','no test reads fixed-width lines; adjacent fields without blanks are the case that breaks naive readers',
 ['src/nvarstr.cpp','src/nvarstr.hpp'],[('__for2cpp__','src/nvarstr.cpp'),('__char2double__','src/nvarstr.hpp')]),
P('P12','Satellites print their identity completely and safely',
 'A satellite prints as its system letter and two-digit number, and in full form also with its vehicle number and COSPAR designation, each exactly as given. Satellites without vehicle number or designation print without reading unset memory. Comparison and copying preserve every component.',
 ['inputs'],'every system, number, vehicle number and designation text','no test prints satellites; single-digit numbers and missing designations are not sampled',
 ['src/satellite.cpp','src/satellite.hpp'],[('Satellite::to_string, COSPAR storage','src/satellite.cpp')]),
P('P13','Navigation records decode every field from its own columns',
 'Reading a navigation record from a RINEX 3 file gives the satellite, the time of clock and the clock and orbit values that stand in its columns, in order, for each satellite system with the number of lines and values that system has (spare columns of Galileo, BeiDou and IRNSS records may hold anything or be blank; GLONASS states are converted to metres). A truncated or malformed record (a missing line, a line too short, a blank or unreadable number or date, an unknown system, an impossible time) is reported by a non-zero status and never by a crash, hang or success.',
 ['inputs','fault_sequences'],'every record content, every system, every truncation point','the library code that reads navigation files is not even built by the test set-up',
 ['src/navrnx.cpp','src/nvarstr.hpp'],[('NavDataFrame::set_from_rnx3, __lines_per_satsys_v3__','src/navrnx.cpp'),('__char2double__','src/nvarstr.hpp')]),
P('P14','Satellite position follows the broadcast orbit model',
 'For GPS, Galileo and BeiDou records the computed earth-fixed position is the one the interface document defines for the broadcast elements, with that system\'s gravitational constant and earth rotation rate, for every epoch within half a week of the time of ephemeris (beyond that the call reports failure). The eccentric anomaly used solves Kepler\'s equation, and it is found for every broadcast eccentricity (up to 0.03). The time of ephemeris is the broadcast week and second of week, and position and clock of an epoch are those for its time difference to the time of ephemeris and the time of clock, across day changes.',
 ['inputs'],'all broadcast element sets and epochs','tests that exist compare one orbit against recorded numbers and are not built here; a wrong correction term with a small coefficient would vanish in them',
 ['src/navrnx.hpp'],[('kepler2state, stateNclock, ref2toe, ref2toc, toe2date','src/navrnx.hpp')]),
P('P15','Satellite clock correction follows the broadcast polynomial',
 'The clock correction of a GPS, Galileo or BeiDou record is the quadratic polynomial in time since the clock reference epoch plus the relativistic eccentricity term (with the system\'s constant). The eccentric anomaly is the supplied one or, if none is supplied, the solution of Kepler\'s equation for the same instant, that is for the time since the time of ephemeris.',
 ['inputs'],'all clock coefficients, elements and epochs','no built test evaluates clocks',
 ['src/navrnx.hpp','src/bdsnav.cpp','src/galnav.cpp','src/gpsnav.cpp'],[('sv_clock','src/navrnx.hpp')]),
P('P16','GLONASS orbit is the Runge-Kutta integration of the PZ-90 equations to the epoch',
 'The GLONASS state derivative is that of the interface document (central term, second zonal harmonic, rotation and luni-solar acceleration). The orbit is integrated from the record\'s reference time by fourth-order Runge-Kutta steps of at most a minute and ends exactly at the requested time, forwards or backwards, within 15 minutes of the reference time. The clock correction is the broadcast bias plus the broadcast frequency bias times the time since the reference time. The reference time is the date next to the time of clock that has the broadcast second of week, also across week changes.',
 ['inputs'],'all states, accelerations and time offsets','no built test integrates GLONASS orbits',
 ['src/glonav.cpp'],[('glo_state_deriv, glo_ecef, glo_clock','src/glonav.cpp')]),
P('P17','Accuracy, health and fit-interval indicators decode by the tables',
 'Health, user range accuracy, signal accuracy, issue of data and fit interval of a navigation record are those of the fields of its system: the GPS user range accuracy is the tabulated accuracy of its index 0 to 15 (15: no prediction), the GPS fit interval the broadcast hours in seconds, four hours for Galileo and BeiDou and 15 minutes for GLONASS. Systems without such records are reported by an exception.',
 ['inputs'],'every broadcast value','no built test reads these indicators',
 ['src/navrnx.cpp','src/gpsnav.cpp','src/galnav.cpp'],[('sv_health, gps_ura, gps_fit_interval, gal_sisa','src/gpsnav.cpp')]),
P('P18','Scanning a navigation file finds exactly the requested records',
 'A navigation file opens exactly when its first line has a version, the letter N in column 21 and a system letter in column 41 and an END OF HEADER line follows (within 1000 lines). Reading then yields its records in order and reports end of file only at the end; skipping passes over exactly one record of the system at hand; rewinding returns to the first record or to a reported position. A search for a satellite stops at the first record of it; a search for a valid record stops at the first healthy record of the satellite whose validity interval (GPS: from its time of clock for its fit interval; Galileo and BeiDou: four hours; GLONASS: 15 minutes around its time of ephemeris) contains the epoch, and gives up only at the end or at a record of that satellite more than four hours ahead of the epoch. Satellite number -1 means any satellite of the system. Damaged records are reported by a positive status. Every operation terminates.',
 ['inputs','histories'],'every sequence of records and every epoch','no built test scans navigation files',
 ['src/navrnx.cpp','src/navrnx.hpp'],[('read_header, read_next_record, ignore_next_block, peak_satsys, find_next','src/navrnx.cpp'),('find_next_valid','src/navrnx.hpp')]),
P('P19','Observation files: header, epochs and satellite records are read as written',
 'A RINEX 3 observation file opens exactly when its first line has a version, the letter O in column 21 and a system letter in column 41, its lists of observation types are consistent (known systems, each once, as many types as announced on as many lines as needed) and END OF HEADER follows; approximate position and first observation are those of the header. The read map gives each requested observable, in order, the columns and coefficients of its terms; an observable that the file does not have gives an empty map, or is left out when that is asked for. Reading then yields the epochs (of event flag 0 or 1) in order: date and second of the day, the satellites of the requested systems in order, and for each observable the sum of coefficients times values, each value from its own 14 columns; the observable is missing when one of its values is blank or behind the end of the line. The end is reported after the last epoch, with or without final newline; rewinding starts again at the first epoch. Damaged lines, lines that end within a value or an epoch field, nonexistent dates, epochs with missing satellite lines and more satellites than there is room for are reported by a positive status, without memory errors, exceptions or hangs.',
 ['inputs','histories','fault_sequences'],'every header, epoch line and satellite record','the reader is not built by the test set-up',
 ['src/obsrnx.cpp','src/obsrnx.hpp'],[('ObservationRnx::read_header, set_read_map, read_next_epoch, collect_epoch, sat_epoch_collect, __resolve_epoch_304__, rewind','src/obsrnx.cpp')]),
P('P20','SP3 orbits: epochs, positions, clocks and flags are read as written',
 'An SP3-c or -d file opens exactly when its first line has the marker and version, the week, second of the week, day and fraction of the day of the second line agree with the start epoch, and the satellite, accuracy, %c, %f and %i lines follow in order; interval and number of satellites are those of the header. Reading then yields the epochs in order: the time stamp to the microsecond, and for each position line in order the satellite, the position in metres, the clock in microseconds and the clock-event, clock-prediction, manoeuvre and orbit-prediction flags, each from its own columns also when no blank separates them; a zero coordinate and a clock of at least 999999 are flagged absent. Velocity and correlation lines are skipped. The end is reported after the last epoch, with or without EOF line, and rewinding starts again at the first. Cut or damaged epoch or position lines, dates that do not exist and more satellites than announced are reported by a positive status, never invented. Reading terminates.',
 ['inputs','fault_sequences'],'every header, record line and truncation','the reader is not built by the test set-up',
 ['src/sp3c.cpp','src/sp3c.hpp'],[('Sp3c::read_header, get_next_epoch, get_next_position, rewind','src/sp3c.cpp')]),
P('P21','ANTEX lookups return the phase-centre offsets of the right antenna',
 'An ANTEX file opens exactly when its first lines have version 1.3 or 1.4, a system letter and the absolute type, and END OF HEADER follows. Looking up a receiver antenna returns the offsets of the entry with the same model, dome and serial number, else (unless the serial number must match) of the entry of the same model and dome without serial number, and reports failure when there is neither. Looking up a satellite by system, number and epoch returns the first entry of it whose validity interval, both ends included or without end, contains the epoch, with its antenna type, vehicle number and COSPAR designation. The offsets are those of every frequency of the entry, with system and band, in order. Incomplete or damaged entries are reported by a positive status, never invented. Answers do not depend on earlier lookups; every lookup terminates.',
 ['inputs','histories','fault_sequences'],'every file content, antenna, satellite and epoch','the reader is not built by the test set-up',
 ['src/antex.cpp','src/antex.hpp'],[('Antex::find_closest_antenna_match, find_satellite_antenna, check_time_interval, collect_pco','src/antex.cpp')]),
P('P22','Satellite tables give the frequency channel valid at the epoch',
 'A satellite table opens exactly when it has the identifying lines of the format. Asking it for the GLONASS frequency channel of a satellite (by vehicle number) at an epoch gives the channel and number of the first microwave (MW) entry of that satellite whose interval, start included and end excluded or open, contains the epoch, reports failure (-1) when there is none, and reports damaged or incomplete entries by a positive status. The answer does not depend on earlier queries.',
 ['inputs','histories'],'every table content, satellite and epoch','the reader is not built by the test set-up',
 ['src/bern_utils.cpp'],[('BernSatellit::get_frequency_channel, BernSatellit::initialize','src/bern_utils.cpp')]),
P('P23','The Kalman filter update is the minimum-variance update',
 'Updating the five-parameter filter (position, receiver clock, clock drift) with the pseudoranges of n satellites gives the standard Kalman update of the state and covariance it had, whatever the earlier updates were: the state is predicted with the drift over the given interval, the covariance with the same transition plus the fixed process noise; the innovation is the pseudorange corrected by the satellite clock less the predicted one (distance plus clock), with its partial derivatives; the residual covariance has the noise 100 plus the weight of each measurement on its diagonal (none without weights); state and covariance follow with the gain that this gives. The first update starts from the given state with the fixed initial covariance (2500 m2, drift 30), later ones from the result of the one before. Measurement coefficient 1; residual covariance positive definite.',
 ['inputs','histories'],'all states, covariances and observation sequences','no test runs the filter',
 ['src/gauss_newton.hpp'],[('Kalman::update, evaluate_jacobian, compute_pseudorange_vector, measurement_vector, initialize_P, initialize_F','src/gauss_newton.hpp')]),
P('P24','Two-digit years map to 1980-2079',
 'A two-digit year of a RINEX file denotes 20yy when it is at most 79 and 19yy otherwise.',
 ['inputs'],'every two-digit year','never tested',
 ['src/rinex.hpp'],[('four2two_digit_year','src/rinex.hpp')]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in L: jsonschema.validate(d,s)
