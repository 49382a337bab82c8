//! Laws about coordinates and timestamps.
use crate::marks::*;
use osmio::*;
use std::str::FromStr;

const MAX: f64 = i32::MAX as f64;
const MIN: f64 = i32::MIN as f64;

fn scaled(v: f64) -> f64 {
    (v * COORD_SCALE_FACTOR).round()
}
fn outcome(r: Result<i32, ParseLatLonError>, x: f64) {
    match r {
        Ok(i) => {
            holds("a number which does not fit is refused", x >= MIN && x <= MAX);
            same("exactly the rounded number is stored", i, x as i32);
        }
        Err(ParseLatLonError::TooLarge(_)) => holds("too large is", x > MAX || x.is_nan()),
        Err(ParseLatLonError::TooSmall(_)) => holds("too small is", x < MIN || x.is_nan()),
        Err(ParseLatLonError::ParseFloatError(_)) => never("a number is not a number"),
    }
}
pub fn law_c20_lat_f64(v: f64) {
    outcome(Lat::try_from(v).map(|l| l.inner()), scaled(v));
}
pub fn law_c20_lon_f64(v: f64) {
    outcome(Lon::try_from(v).map(|l| l.inner()), scaled(v));
}
pub fn law_c20_lat_f32(v: f32) {
    outcome(Lat::try_from(v).map(|l| l.inner()), scaled(v as f64));
}
pub fn law_c20_lon_f32(v: f32) {
    outcome(Lon::try_from(v).map(|l| l.inner()), scaled(v as f64));
}
fn from_text(r: Result<i32, ParseLatLonError>, p: Result<f64, std::num::ParseFloatError>) {
    match p {
        Ok(v) => outcome(r, scaled(v)),
        Err(_) => match r {
            Err(ParseLatLonError::ParseFloatError(_)) => {}
            _ => never("text which is no number is accepted"),
        },
    }
}
pub fn law_c20_lat_str(s: &str) {
    from_text(Lat::from_str(s).map(|l| l.inner()), f64::from_str(s));
}
pub fn law_c20_lon_str(s: &str) {
    from_text(Lon::from_str(s).map(|l| l.inner()), f64::from_str(s));
}
pub fn law_c20_inner(i: i32) {
    same("lat inner", Lat::from_inner(i).inner(), i);
    same("lon inner", Lon::from_inner(i).inner(), i);
    same("lat degrees", Lat::from_inner(i).degrees(), i as f64 / COORD_SCALE_FACTOR);
    same("lon degrees", Lon::from_inner(i).degrees(), i as f64 / COORD_SCALE_FACTOR);
    same("lat into", f64::from(Lat::from_inner(i)), i as f64 / COORD_SCALE_FACTOR);
    same("lon into", f64::from(Lon::from_inner(i)), i as f64 / COORD_SCALE_FACTOR);
}

use std::cmp::Ordering;
pub fn law_c21_reflexive(a: TimestampFormat) {
    same("equal to itself", a == a, true);
    same("no less, no greater than itself", a.partial_cmp(&a), Some(Ordering::Equal));
}
pub fn law_c21_symmetric(a: TimestampFormat, b: TimestampFormat) {
    same("equality is symmetric", a == b, b == a);
    same("ordering is antisymmetric", a.partial_cmp(&b), b.partial_cmp(&a).map(|o| o.reverse()));
}
pub fn law_c21_agree(a: TimestampFormat, b: TimestampFormat) {
    same("equality agrees with the ordering", a == b, a.partial_cmp(&b) == Some(Ordering::Equal));
}
pub fn law_c21_eq_transitive(a: TimestampFormat, b: TimestampFormat, c: TimestampFormat) {
    given(a == b);
    given(b == c);
    same("equality is transitive", a == c, true);
}
pub fn law_c21_epoch(t: i64, s: &str) {
    same("a number is the number of seconds", TimestampFormat::EpochNumber(t).to_epoch_number(), t);
    match chrono_secs(s) {
        Some(x) => {
            same("seconds of a date", TimestampFormat::ISOString(s.to_string()).to_epoch_number(), x);
            match TimestampFormat::from_str(s) {
                Ok(TimestampFormat::EpochNumber(y)) => same("seconds of a parsed date", y, x),
                Ok(TimestampFormat::ISOString(y)) => same("text of a parsed date", y, s.to_string()),
                Err(_) => never("a date is refused"),
            }
        }
        None => {}
    }
}
fn chrono_secs(s: &str) -> Option<i64> {
    match chrono::DateTime::parse_from_rfc3339(s) {
        Ok(d) => Some(d.timestamp()),
        Err(_) => None,
    }
}
pub fn law_c21_text(t: i64, s: String) {
    let w = s.clone();
    same("text is kept", TimestampFormat::ISOString(s).to_iso_string(), w);
    see("date of a number", TimestampFormat::EpochNumber(t).to_iso_string());
}
/// a number becomes the date which is that many seconds after the epoch, all 64 bits of it
pub fn law_c21_date(t: i64, u: u32) {
    let date = |t: i64| chrono::DateTime::from_timestamp(t, 0).map(|d| d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
    if let Some(d) = date(t) {
        same("date of a number", TimestampFormat::EpochNumber(t).to_iso_string(), d.clone());
        same("epoch_to_iso", osmio::utils::epoch_to_iso(t), d);
    }
    if let Some(d) = date(u.into()) {
        same("epoch_to_iso of a u32", osmio::utils::epoch_to_iso(u), d);
    }
}
pub fn law_c21_iso_to_epoch(s: &str) {
    if let Some(x) = chrono_secs(s) {
        same("iso_to_epoch", i64::from(osmio::utils::iso_to_epoch(s)), x);
    }
}
pub fn law_c21_from(t: i64, u: u32, v: i32) {
    same("from i64", TimestampFormat::from(t).to_epoch_number(), t);
    same("from u32", TimestampFormat::from(u).to_epoch_number(), u as i64);
    same("from i32", TimestampFormat::from(v).to_epoch_number(), v as i64);
}
