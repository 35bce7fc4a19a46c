//! Conformance driver: reads a script of operations on stdin, runs them against the public API of
//! nmea-parser and writes one JSON event per operation to the file given as first argument.
//!
//! Operations, one per line:
//!   T y mo d h mi s [ns] set the UTC clock the code under test sees; its steady clocks advance
//!                        along whenever it is set forward
//!   U y mo d h mi s [ns] same as T, in the middle of an episode: heap measurements go on
//!   N i                  new parser in slot i
//!   P i hex              parse the sentence (UTF-8 bytes in hex) with parser i
//!   X i hex              same, on a fresh parser in a process that has parsed nothing before
//!                        ("control" parse)
//!   Y i n hex hex ...    feed the given cycle of sentences n times to parser i
//!   W i hex hex ...      feed a crowd of sentences to parser i; the first and the last result are recorded
//!   M label              report live heap bytes
//!   E enum value         classify a raw code with a public constructor
//!   C mmsi               country of an MMSI
//!   D type               how every value of a type prints; "default": what types default to;
//!                        "error": how errors read
//!
//! Events carry the projection of the result onto the specification's records: wire-scale integers
//! instead of floating point numbers, character codes instead of strings, [] / [x] for options.

use nmea_parser::ais::*;
use nmea_parser::gnss::*;
use nmea_parser::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

// ---- live heap bytes ---------------------------------------------------------------------------

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        }
        q
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

// ---- the clock ---------------------------------------------------------------------------------

static FAKE_EPOCH: AtomicI64 = AtomicI64::new(i64::MIN);
static FAKE_NANOS: AtomicI64 = AtomicI64::new(0);
static STEADY: AtomicI64 = AtomicI64::new(0); // seconds the steady clocks were advanced by

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, ...) -> i32;
    fn _exit(code: i32) -> !;
}

/// Replaces libc's clock_gettime: the real-time clock shows whatever the script says.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    let fake = FAKE_EPOCH.load(Ordering::Relaxed);
    if (clock == 0 || clock == 5) && fake != i64::MIN {
        (*ts).sec = fake;
        (*ts).nsec = FAKE_NANOS.load(Ordering::Relaxed);
        0
    } else {
        let r = real_clock(clock, ts);
        if r == 0 && matches!(clock, 1 | 4 | 6 | 7) {
            (*ts).sec += STEADY.load(Ordering::Relaxed);
        }
        r
    }
}

unsafe fn real_clock(clock: i32, ts: *mut Timespec) -> i32 {
    #[cfg(target_arch = "x86_64")]
    const SYS: i64 = 228;
    #[cfg(target_arch = "aarch64")]
    const SYS: i64 = 113;
    syscall(SYS, clock as i64, ts) as i32
}

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

fn civil(t: i64) -> [i64; 6] {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = days + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    [y, m, d, s / 3600, s / 60 % 60, s % 60]
}

// ---- projection --------------------------------------------------------------------------------

const ODD: i64 = 999999999; // a value that is not on the wire scale

fn scaled(v: f64, scale: f64) -> i64 {
    let x = v * scale;
    if x.is_finite() && x.abs() < 9e8 && (x - x.round()).abs() < 1e-3 {
        x.round() as i64
    } else {
        ODD
    }
}

/// A rate of turn back in AIS units.
fn rot_units(v: f64) -> i64 {
    let n = (4.733 * v.abs().sqrt()).round();
    if n.is_finite() && ((n / 4.733).powi(2) - v.abs()).abs() < 1e-3 {
        n as i64 * if v < 0.0 { -1 } else { 1 }
    } else {
        ODD
    }
}

/// Sign, integer part, billionths; sign 0 when it cannot be represented so.
fn parts(v: f64) -> String {
    let a = v.abs();
    if !a.is_finite() || a > 100_000_000.5 {
        return "[0,0,0]".into();
    }
    let mut hi = a.floor() as i64;
    let mut lo = ((a - a.floor()) * 1e9).round() as i64;
    if lo == 1_000_000_000 {
        hi += 1;
        lo = 0;
    }
    let sign = if v < 0.0 && (hi != 0 || lo != 0) { -1 } else { 1 };
    format!("[{},{},{}]", sign, hi, lo)
}

fn codes(s: &str) -> String {
    let mut o = String::from("[");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", c as u32);
    }
    o.push(']');
    o
}

fn opt<T>(v: &Option<T>, f: impl Fn(&T) -> String) -> String {
    match v {
        Some(x) => format!("[{}]", f(x)),
        None => "[]".into(),
    }
}

fn name<T: std::fmt::Debug>(v: &T) -> String {
    format!("\"{:?}\"", v)
}

macro_rules! timestamp {
    ($v:expr) => {
        match &$v {
            Some(t) => {
                if t.timestamp_subsec_nanos() != 0 {
                    format!("[[{},0,0,0,0,0]]", ODD)
                } else {
                    format!("[{:?}]", civil(t.timestamp()))
                }
            }
            None => "[]".to_string(),
        }
    };
}

struct Rec(String);

impl Rec {
    fn new(kind: &str) -> Rec {
        Rec(format!("{{\"k\":\"{}\"", kind))
    }
    fn raw(mut self, key: &str, v: impl AsRef<str>) -> Rec {
        let _ = write!(self.0, ",\"{}\":{}", key, v.as_ref());
        self
    }
    fn int(self, key: &str, v: i64) -> Rec {
        self.raw(key, v.to_string())
    }
    fn flag(self, key: &str, v: bool) -> Rec {
        self.raw(key, v.to_string())
    }
    fn oflag(self, key: &str, v: &Option<bool>) -> Rec {
        self.raw(key, opt(v, |b| b.to_string()))
    }
    fn oscaled<T: Copy + Into<f64>>(self, key: &str, v: &Option<T>, scale: f64) -> Rec {
        self.raw(key, opt(v, |x| scaled((*x).into(), scale).to_string()))
    }
    fn onum<T: Copy + Into<f64>>(self, key: &str, v: &Option<T>) -> Rec {
        self.raw(key, opt(v, |x| parts((*x).into())))
    }
    fn otext(self, key: &str, v: &Option<String>) -> Rec {
        self.raw(key, opt(v, |x| codes(x)))
    }
    fn oint<T: Copy + Into<i64>>(self, key: &str, v: &Option<T>) -> Rec {
        self.raw(key, opt(v, |x| (*x).into().to_string()))
    }
    fn position<T: Copy + Into<f64>, U: Copy + Into<f64>>(self, lat: &Option<T>, lon: &Option<U>, tr: &dyn LatLon) -> Rec {
        self.oscaled("lat", lat, 600000.0)
            .oscaled("lon", lon, 600000.0)
            .oscaled("tlat", &tr.latitude(), 600000.0)
            .oscaled("tlon", &tr.longitude(), 600000.0)
    }
    fn minutes<T: Copy + Into<f64>, U: Copy + Into<f64>>(self, lat: &Option<T>, lon: &Option<U>, tr: &dyn LatLon) -> Rec {
        let f = |v: Option<f64>| v.map(|x| x * 60.0);
        self.onum("lat", &f(lat.map(|x| x.into())))
            .onum("lon", &f(lon.map(|x| x.into())))
            .onum("tlat", &f(tr.latitude()))
            .onum("tlon", &f(tr.longitude()))
    }
    fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

/// The position accuracy of a type 21 report is visible only in its debug representation.
fn hidden_accuracy(v: &AidToNavigationReport) -> &'static str {
    let d = format!("{:?}", v);
    match d.find("high_position_accuracy: ") {
        Some(p) if d[p + 24..].starts_with("true") => "\"T\"",
        Some(p) if d[p + 24..].starts_with("false") => "\"F\"",
        _ => "\"?\"",
    }
}

#[allow(unreachable_patterns)]
fn project(r: &Result<ParsedSentence, ParseError>) -> String {
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            return format!(
                "{{\"k\":\"Err\",\"e\":\"{}\"}}",
                match e {
                    ParseError::UnsupportedSentenceType(_) => "Unsupported",
                    ParseError::CorruptedSentence(_) => "Corrupted",
                    ParseError::InvalidSentence(_) => "Invalid",
                    _ => "Other",
                }
            )
        }
    };
    match r {
        ParsedSentence::Incomplete => Rec::new("Incomplete").end(),
        ParsedSentence::VesselDynamicData(v) => Rec::new("Vdd")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .raw("cls", name(&v.ais_type))
            .int("mmsi", v.mmsi.into())
            .raw("nav", name(&v.nav_status))
            .raw("rot", opt(&v.rot, |x| rot_units((*x).into()).to_string()))
            .oint("rotd", &v.rot_direction)
            .oscaled("sog", &v.sog_knots, 10.0)
            .flag("acc", v.high_position_accuracy)
            .position(&v.latitude, &v.longitude, v)
            .oscaled("cog", &v.cog, 10.0)
            .oscaled("hdg", &v.heading_true, 10.0)
            .int("ts", v.timestamp_seconds.into())
            .raw("psm", opt(&v.positioning_system_meta, name))
            .oflag("gnss", &v.current_gnss_position)
            .oflag("man", &v.special_manoeuvre)
            .flag("raim", v.raim_flag)
            .oflag("bu", &v.class_b_unit_flag)
            .oflag("bd", &v.class_b_display)
            .oflag("bs", &v.class_b_dsc)
            .oflag("bb", &v.class_b_band_flag)
            .oflag("b22", &v.class_b_msg22_flag)
            .oflag("bm", &v.class_b_mode_flag)
            .oflag("bc", &v.class_b_css_flag)
            .oint("radio", &v.radio_status)
            .end(),
        ParsedSentence::VesselStaticData(v) => Rec::new("Vsd")
            .flag("own", v.own_vessel)
            .raw("cls", name(&v.ais_type))
            .int("mmsi", v.mmsi.into())
            .int("ver", v.ais_version_indicator.into())
            .oint("imo", &v.imo_number)
            .otext("call", &v.call_sign)
            .otext("name", &v.name)
            .raw("ship", name(&v.ship_type))
            .raw("cargo", name(&v.cargo_type))
            .otext("vend", &v.equipment_vendor_id)
            .oint("model", &v.equipment_model)
            .oint("ser", &v.equipment_serial_number)
            .oint("bow", &v.dimension_to_bow)
            .oint("stern", &v.dimension_to_stern)
            .oint("port", &v.dimension_to_port)
            .oint("stbd", &v.dimension_to_starboard)
            .raw("fix", opt(&v.position_fix_type, name))
            .raw("eta", timestamp!(v.eta))
            .oint("dr", &v.draught10)
            .otext("dest", &v.destination)
            .oint("moth", &v.mothership_mmsi)
            .raw("ctry", opt(&v.country(), |c| format!("\"{}\"", c)))
            .end(),
        ParsedSentence::BaseStationReport(v) => Rec::new("Bsr")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .int("mmsi", v.mmsi.into())
            .raw("time", timestamp!(v.timestamp))
            .flag("acc", v.high_position_accuracy)
            .position(&v.latitude, &v.longitude, v)
            .raw("fix", opt(&v.position_fix_type, name))
            .flag("raim", v.raim_flag)
            .int("radio", v.radio_status.into())
            .end(),
        ParsedSentence::BinaryAddressedMessage(v) => Rec::new("Bam")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .int("mmsi", v.mmsi.into())
            .int("seq", v.sequence_number.into())
            .int("dmmsi", v.destination_mmsi.into())
            .flag("retr", v.retransmit_flag)
            .int("dac", v.dac.into())
            .int("fid", v.fid.into())
            .oscaled("tlat", &LatLon::latitude(v), 600000.0)
            .oscaled("tlon", &LatLon::longitude(v), 600000.0)
            .end(),
        ParsedSentence::StandardSarAircraftPositionReport(v) => Rec::new("Sar")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .int("mmsi", v.mmsi.into())
            .oint("alt", &v.altitude)
            .oint("sog", &v.sog_knots)
            .flag("acc", v.high_position_accuracy)
            .position(&v.latitude, &v.longitude, v)
            .oscaled("cog", &v.cog, 10.0)
            .int("ts", v.timestamp_seconds.into())
            .int("regional", v.regional.into())
            .flag("dte", v.dte)
            .flag("assigned", v.assigned)
            .flag("raim", v.raim_flag)
            .int("radio", v.radio_status.into())
            .end(),
        ParsedSentence::UtcDateInquiry(v) => Rec::new("Udi")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .int("mmsi", v.source_mmsi.into())
            .int("dmmsi", v.destination_mmsi.into())
            .end(),
        ParsedSentence::AidToNavigationReport(v) => Rec::new("Aton")
            .flag("own", v.own_vessel)
            .raw("st", name(&v.station))
            .int("mmsi", v.mmsi.into())
            .raw("aid", name(&v.aid_type))
            .raw("name", codes(&v.name))
            .raw("acc", hidden_accuracy(v))
            .position(&v.latitude, &v.longitude, v)
            .oint("bow", &v.dimension_to_bow)
            .oint("stern", &v.dimension_to_stern)
            .oint("port", &v.dimension_to_port)
            .oint("stbd", &v.dimension_to_starboard)
            .raw("fix", opt(&v.position_fix_type, name))
            .int("ts", v.timestamp_seconds.into())
            .flag("off", v.off_position_indicator)
            .int("regional", v.regional.into())
            .flag("raim", v.raim_flag)
            .flag("virtual", v.virtual_aid_flag)
            .flag("assigned", v.assigned_mode_flag)
            .end(),
        ParsedSentence::Gga(v) => Rec::new("Gga")
            .raw("src", name(&v.source))
            .raw("time", timestamp!(v.timestamp))
            .minutes(&v.latitude, &v.longitude, v)
            .raw("q", name(&v.quality))
            .oint("n", &v.satellite_count)
            .onum("hdop", &v.hdop)
            .onum("alt", &v.altitude)
            .onum("geo", &v.geoid_separation)
            .onum("age", &v.age_of_dgps)
            .oint("ref", &v.ref_station_id)
            .end(),
        ParsedSentence::Rmc(v) => Rec::new("Rmc")
            .raw("src", name(&v.source))
            .raw("time", timestamp!(v.timestamp))
            .oflag("active", &v.status_active)
            .minutes(&v.latitude, &v.longitude, v)
            .onum("sog", &v.sog_knots)
            .onum("brg", &v.bearing)
            .onum("var", &v.variation)
            .end(),
        ParsedSentence::Gsa(v) => Rec::new("Gsa")
            .raw("src", name(&v.source))
            .oflag("auto", &v.mode1_automatic)
            .raw("fix", opt(&v.mode2_3d, name))
            .raw("prns", format!("{:?}", v.prn_numbers))
            .onum("pdop", &v.pdop)
            .onum("hdop", &v.hdop)
            .onum("vdop", &v.vdop)
            .end(),
        ParsedSentence::Gsv(v) => {
            let mut o = String::from("[");
            for (i, s) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let mut r = Rec(format!("{{\"src\":{}", name(&s.source)));
                r = r
                    .int("prn", s.prn_number.into())
                    .oint("el", &s.elevation)
                    .oint("az", &s.azimuth)
                    .oint("snr", &s.snr);
                o.push_str(&r.end());
            }
            o.push(']');
            Rec::new("Gsv").raw("sats", o).end()
        }
        ParsedSentence::Vtg(v) => Rec::new("Vtg")
            .raw("src", name(&v.source))
            .onum("cogt", &v.cog_true)
            .onum("cogm", &v.cog_magnetic)
            .onum("kn", &v.sog_knots)
            .onum("kph", &v.sog_kph)
            .raw("faa", opt(&v.faa_mode, name))
            .end(),
        ParsedSentence::Gll(v) => Rec::new("Gll")
            .raw("src", name(&v.source))
            .minutes(&v.latitude, &v.longitude, v)
            .raw("time", timestamp!(v.timestamp))
            .oflag("valid", &v.data_valid)
            .raw("faa", opt(&v.faa_mode, name))
            .end(),
        _ => Rec::new("Other").end(),
    }
}

// ---- printing ----------------------------------------------------------------------------------

macro_rules! shown {
    ($t:ident: $($v:ident)*) => {
        vec![$((stringify!($v).to_string(), codes(&$t::$v.to_string()))),*]
    };
}

fn printed(t: &str) -> String {
    let pairs: Vec<(String, String)> = match t {
        "station" => shown!(Station: BaseStation DependentAisBaseStation MobileStation AidToNavigationStation
            AisReceivingStation LimitedBaseStation AisTransmittingStation RepeaterStation Other),
        "class" => shown!(AisClass: Unknown ClassA ClassB),
        "meta" => shown!(PositioningSystemMeta: Operative ManualInputMode DeadReckoningMode Inoperative),
        "ship" => shown!(ShipType: NotAvailable Reserved1 WingInGround Fishing Towing TowingLong
            DredgingOrUnderwaterOps DivingOps MilitaryOps Sailing PleasureCraft Reserved38 Reserved39 HighSpeedCraft
            Pilot SearchAndRescue Tug PortTender AntiPollutionEquipment LawEnforcement SpareLocal56 SpareLocal57
            MedicalTransport Noncombatant Passenger Cargo Tanker Other),
        "cargo" => shown!(CargoType: Undefined HazardousCategoryA HazardousCategoryB HazardousCategoryC
            HazardousCategoryD Reserved5 Reserved6 Reserved7 Reserved8 Reserved9),
        "fix" => shown!(PositionFixType: Undefined GPS GLONASS GPSGLONASS LoranC Chayka IntegratedNavigationSystem
            Surveyed Galileo),
        "aid" => shown!(NavAidType: NotSpecified ReferencePoint Racon FixedStructure Reserved4 LightWithoutSectors
            LightWithSectors LeadingLightFront LeadingLightRear BeaconCardinalNorth BeaconCardinalEast
            BeaconCardinalSouth BeaconCardinalWest BeaconLateralPort BeaconLateralStarboard
            BeaconLateralPreferredChannelPort BeaconLateralPreferredChannelStarboard BeaconIsolatedDanger
            BeaconSafeWater BeaconSpecialMark CardinalMarkNorth CardinalMarkEast CardinalMarkSouth CardinalMarkWest
            PortHandMark StarboardHandMark PreferredChannelPort PreferredChannelStarboard IsolatedDanger SafeWater
            SpecialMark LightVessel),
        "system" => shown!(NavigationSystem: Combination Gps Glonass Galileo Beidou Navic Qzss Other),
        "faa" => shown!(FaaMode: Autonomous Differential Estimated NotValid Simulator),
        "gsa" => shown!(GsaFixMode: NotAvailable Fix2D Fix3D),
        "quality" => shown!(GgaQualityIndicator: Invalid GpsFix DGpsFix PpsFix RealTimeKinematic RealTimeKinematicFloat
            DeadReckoning ManualInputMode SimulationMode),
        "default" => vec![
            ("Station".into(), name(&Station::default())),
            ("AisClass".into(), name(&AisClass::default())),
            ("NavigationStatus".into(), name(&NavigationStatus::default())),
            ("ShipType".into(), name(&ShipType::default())),
            ("CargoType".into(), name(&CargoType::default())),
            ("NavAidType".into(), name(&NavAidType::default())),
        ],
        "error" => {
            let texts = ["", "one", "two words: x", "\u{e9}\u{1f6a2} *0A"];
            let all: Vec<String> = texts
                .iter()
                .flat_map(|t| {
                    let t = t.to_string();
                    vec![
                        (t.clone(), ParseError::UnsupportedSentenceType(t.clone()).to_string()),
                        (t.clone(), ParseError::CorruptedSentence(t.clone()).to_string()),
                        (t.clone(), ParseError::InvalidSentence(t.clone()).to_string()),
                        (t.clone(), ParseError::from(t.clone()).to_string()),
                    ]
                })
                .map(|(a, b)| format!("[{},{}]", codes(&a), codes(&b)))
                .collect();
            return format!("[{}]", all.join(","));
        }
        _ => panic!("unknown type"),
    };
    let all: Vec<String> = pairs.iter().map(|(a, b)| format!("[\"{}\",{}]", a, b)).collect();
    format!("[{}]", all.join(","))
}

// ---- running -----------------------------------------------------------------------------------

static STARTED: AtomicU64 = AtomicU64::new(0); // ms at which the running operation began, 0 = idle

fn ms() -> u64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe { real_clock(1, &mut ts) };
    (ts.sec * 1000 + ts.nsec / 1_000_000) as u64 + 1
}

fn parse(p: &mut NmeaParser, s: &str) -> String {
    STARTED.store(ms(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| project(&p.parse_sentence(s))));
    STARTED.store(0, Ordering::SeqCst);
    r.unwrap_or_else(|_| "{\"k\":\"Panic\"}".into())
}

fn guarded(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "\"Panic\"".into())
}

fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len() / 2)
        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex"))
        .collect();
    String::from_utf8(b).expect("utf-8")
}

fn clock_check() {
    FAKE_EPOCH.store(86400 * 365, Ordering::Relaxed);
    let t = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_secs())
        .unwrap_or(0);
    if t != 86400 * 365 {
        eprintln!("cannot control the clock");
        std::process::exit(4);
    }
}

// ---- pristine processes ------------------------------------------------------------------------

/// A process that has never parsed anything and forks one for every control parse, so that nothing
/// the code under test may keep outside its parsers reaches a control.
struct Pristine {
    ask: std::fs::File,
    hear: std::io::BufReader<std::fs::File>,
}

fn channel() -> (std::fs::File, std::fs::File) {
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            eprintln!("cannot make a pipe");
            std::process::exit(4);
        }
        (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
    }
}

impl Pristine {
    /// To be called before there is any other thread.
    fn start() -> Pristine {
        let (requests, ask) = channel();
        let (results, mut answer) = channel();
        match unsafe { fork() } {
            -1 => {
                eprintln!("cannot fork");
                std::process::exit(4);
            }
            0 => {
                drop(ask);
                drop(results);
                unsafe { prctl(1, 9u64) }; // die with the parent
                for line in std::io::BufReader::new(requests).lines() {
                    let Ok(line) = line else { break };
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        unsafe { prctl(1, 9u64) };
                        let w: Vec<&str> = line.split(' ').collect();
                        FAKE_EPOCH.store(w[0].parse().expect("clock"), Ordering::Relaxed);
                        FAKE_NANOS.store(w[1].parse().expect("clock"), Ordering::Relaxed);
                        STEADY.store(w[2].parse().expect("clock"), Ordering::Relaxed);
                        let r = parse(&mut NmeaParser::new(), &unhex(w[3]));
                        let ok = answer.write_all(r.as_bytes()).is_ok();
                        unsafe { _exit(if ok { 0 } else { 1 }) };
                    }
                    let mut status = -1;
                    unsafe { waitpid(pid, &mut status, 0) };
                    if answer.write_all(if pid > 0 && status == 0 { b"\n" } else { b"!\n" }).is_err() {
                        break;
                    }
                }
                unsafe { _exit(0) };
            }
            _ => Pristine { ask, hear: std::io::BufReader::new(results) },
        }
    }

    fn parse(&mut self, hex: &str) -> String {
        let mut r = String::new();
        STARTED.store(ms(), Ordering::SeqCst);
        writeln!(
            self.ask,
            "{} {} {} {}",
            FAKE_EPOCH.load(Ordering::Relaxed),
            FAKE_NANOS.load(Ordering::Relaxed),
            STEADY.load(Ordering::Relaxed),
            hex
        )
        .expect("control process");
        self.hear.read_line(&mut r).expect("control process");
        STARTED.store(0, Ordering::SeqCst);
        let r = r.trim_end_matches('\n');
        if r.is_empty() || r.ends_with('!') {
            "{\"k\":\"Crash\"}".into()
        } else {
            r.into()
        }
    }
}

/// An application that reads its log: what the parser logs is composed, and then forgotten.
struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }

    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }

    fn flush(&self) {}
}

fn main() {
    let out_path = std::env::args().nth(1).expect("output file");
    let limit: u64 = std::env::var("OP_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
    std::panic::set_hook(Box::new(|_| {}));
    clock_check();
    if cfg!(debug_assertions) {
        log::set_logger(&Log).expect("logger");
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut pristine = Pristine::start();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && ms() > s + limit {
            std::process::exit(3);
        }
    });
    let mut out = std::fs::File::create(out_path).expect("output file");
    let mut parsers: Vec<Option<NmeaParser>> = Vec::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("input");
        let w: Vec<&str> = line.split(' ').collect();
        let slot = |k: usize| w[k].parse::<usize>().expect("slot");
        let text = match w[0] {
            "T" | "U" => {
                let v: Vec<i64> = w[1..].iter().map(|s| s.parse().expect("clock")).collect();
                let t = days_from_civil(v[0], v[1], v[2]) * 86400 + v[3] * 3600 + v[4] * 60 + v[5];
                let before = FAKE_EPOCH.swap(t, Ordering::Relaxed);
                FAKE_NANOS.store(*v.get(6).unwrap_or(&0), Ordering::Relaxed);
                if t > before {
                    // At most a century at a time: steady clocks must not overflow.
                    let total = STEADY.load(Ordering::Relaxed) + (t - before).min(3_200_000_000);
                    STEADY.store(total.min(1 << 40), Ordering::Relaxed);
                }
                format!("{{\"op\":\"{}\",\"now\":{:?}}}\n", w[0], v)
            }
            "N" => {
                let i = slot(1);
                while parsers.len() <= i {
                    parsers.push(None);
                }
                parsers[i] = Some(NmeaParser::new());
                format!("{{\"op\":\"N\",\"i\":{}}}\n", i)
            }
            "P" => {
                let i = slot(1);
                let s = unhex(w[2]);
                // The operation is on record before it runs, so a crash can be attributed to it.
                write!(out, "{{\"op\":\"P\",\"i\":{},\"s\":{},\"r\":", i, codes(&s)).expect("write");
                let r = parse(parsers[i].as_mut().expect("parser"), &s);
                format!("{}}}\n", r)
            }
            "X" => {
                let i = slot(1);
                let s = unhex(w[2]);
                write!(out, "{{\"op\":\"X\",\"i\":{},\"s\":{},\"r\":", i, codes(&s)).expect("write");
                let r = pristine.parse(w[2]);
                format!("{}}}\n", r)
            }
            "Y" => {
                let i = slot(1);
                let n: u64 = w[2].parse().expect("count");
                let ss: Vec<String> = w[3..].iter().map(|h| unhex(h)).collect();
                let all: Vec<String> = ss.iter().map(|s| codes(s)).collect();
                write!(out, "{{\"op\":\"Y\",\"i\":{},\"n\":{},\"ss\":[{}],\"r\":", i, n, all.join(","))
                    .expect("write");
                let p = parsers[i].as_mut().expect("parser");
                let first: Vec<String> = ss.iter().map(|s| parse(p, s)).collect();
                let second: Vec<String> = ss.iter().map(|s| parse(p, s)).collect();
                let mut odd = 0;
                for _ in 2..n {
                    for (s, e) in ss.iter().zip(&second) {
                        if &parse(p, s) != e {
                            odd += 1;
                        }
                    }
                }
                format!(
                    "{{\"k\":\"Cycle\",\"first\":[{}],\"then\":[{}],\"odd\":{}}}}}\n",
                    first.join(","),
                    second.join(","),
                    odd
                )
            }
            "W" => {
                let i = slot(1);
                let ss: Vec<String> = w[2..].iter().map(|h| unhex(h)).collect();
                let ends = [ss.first().expect("crowd"), ss.last().expect("crowd")];
                write!(
                    out,
                    "{{\"op\":\"W\",\"i\":{},\"n\":{},\"ss\":[{},{}],\"r\":",
                    i,
                    ss.len(),
                    codes(ends[0]),
                    codes(ends[1])
                )
                .expect("write");
                let p = parsers[i].as_mut().expect("parser");
                let kind = |r: &str| r.split(',').next().unwrap_or("").to_string();
                let first = parse(p, &ss[0]);
                let mut last = first.clone();
                let mut odd = 0;
                for s in &ss[1..] {
                    last = parse(p, s);
                    if kind(&last) != kind(&first) {
                        odd += 1;
                    }
                }
                format!("{{\"k\":\"Crowd\",\"ends\":[{},{}],\"odd\":{}}}}}\n", first, last, odd)
            }
            "Q" => {
                let sides: Vec<Vec<String>> = w[1..3].iter().map(|l| l.split(',').map(unhex).collect()).collect();
                let said = |side: &Vec<String>| {
                    let v: Vec<String> = side.iter().map(|s| codes(s)).collect();
                    format!("[{}]", v.join(","))
                };
                write!(out, "{{\"op\":\"Q\",\"a\":{},\"b\":{},\"r\":", said(&sides[0]), said(&sides[1])).expect("write");
                let r = std::panic::catch_unwind(|| {
                    let last = |side: &Vec<String>| {
                        let mut p = NmeaParser::new();
                        let mut r = p.parse_sentence(&side[0]);
                        for s in &side[1..] {
                            r = p.parse_sentence(s);
                        }
                        r
                    };
                    let (a, b, again) = (last(&sides[0]), last(&sides[1]), last(&sides[0]));
                    let (ra, rb) = (project(&a), project(&b));
                    let copy = a.clone();
                    let mut over = b.clone();
                    over.clone_from(&a);
                    let kept = [a == copy, copy == a, !(a != copy), a == again, !(again != a), a == over];
                    let equal = [a == b, b == a, !(a != b), !(b != a), copy == b];
                    drop((a, again));
                    format!(
                        "{{\"k\":\"Pair\",\"a\":{},\"b\":{},\"copies\":[{},{}],\"kept\":{:?},\"equal\":{:?}}}",
                        ra,
                        rb,
                        project(&copy),
                        project(&over),
                        kept,
                        equal
                    )
                });
                format!("{}}}\n", r.unwrap_or_else(|_| "{\"k\":\"Panic\"}".into()))
            }
            "M" => format!("{{\"op\":\"M\",\"live\":{}}}\n", LIVE.load(Ordering::SeqCst)),
            "E" => {
                let v: i64 = w[2].parse().unwrap_or(0);
                let b = v as u8;
                let r = guarded(|| match w[1] {
                    "ship" => name(&ShipType::new(b)),
                    "cargo" => name(&CargoType::new(b)),
                    "fix" => name(&PositionFixType::new(b)),
                    "nav" => name(&NavigationStatus::new(b)),
                    "quality" => name(&GgaQualityIndicator::new(b)),
                    _ => panic!("unknown table"),
                });
                format!("{{\"op\":\"E\",\"t\":\"{}\",\"v\":{},\"r\":{}}}\n", w[1], b, r)
            }
            "F" => {
                let s = unhex(w.get(1).unwrap_or(&""));
                let r = guarded(|| opt(&FaaMode::new(&s).ok(), name));
                format!("{{\"op\":\"F\",\"s\":{},\"r\":{}}}\n", codes(&s), r)
            }
            "C" => {
                let m: u32 = w[1].parse().expect("mmsi");
                let v = VesselStaticData { mmsi: m, ..Default::default() };
                // The country is that of the MMSI, whatever else is known.
                let w = VesselStaticData {
                    mmsi: m,
                    own_vessel: true,
                    ais_type: AisClass::ClassB,
                    imo_number: Some(9134270),
                    call_sign: Some("3FOF8".into()),
                    name: Some("EVER DIADEM".into()),
                    ship_type: ShipType::Cargo,
                    mothership_mmsi: Some(244750038),
                    ..Default::default()
                };
                let r = guarded(|| opt(&v.country(), |c| format!("\"{}\"", c)));
                let r2 = guarded(|| opt(&w.country(), |c| format!("\"{}\"", c)));
                let r = if r == r2 { r } else { "[\"both\"]".into() };
                format!("{{\"op\":\"C\",\"m\":{},\"r\":{}}}\n", m, r)
            }
            "D" => {
                let r = guarded(|| printed(w[1]));
                format!("{{\"op\":\"D\",\"t\":\"{}\",\"r\":{}}}\n", w[1], r)
            }
            _ => {
                eprintln!("bad operation {}", line);
                std::process::exit(5);
            }
        };
        out.write_all(text.as_bytes()).expect("write");
    }
    STARTED.store(0, Ordering::SeqCst);
}
