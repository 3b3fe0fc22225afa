//! Calendar arithmetic for the oracles (proleptic Gregorian calendar, no leap seconds).
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut n = 0;
    if y >= 1970 {
        for k in 1970..y {
            n += 365 + leap(k) as i64;
        }
    } else {
        for k in y..1970 {
            n -= 365 + leap(k) as i64;
        }
    }
    for k in 1..m {
        n += month(y, k);
    }
    n + d - 1
}
pub fn month(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dt {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    /// offset in minutes
    pub off: i64,
}
pub const MONTHS: &[&str] = &["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub const DAYS: &[&str] = &["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
impl Dt {
    pub fn utc(&self) -> i64 {
        (days(self.y, self.mo, self.d) * 24 + self.h) * 3600 + self.mi * 60 + self.s - self.off * 60
    }
    pub fn at(utc: i64, off: i64) -> Dt {
        let t = utc + off * 60;
        let (dd, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
        let mut y = 1970 + dd.div_euclid(366);
        while days(y + 1, 1, 1) <= dd {
            y += 1;
        }
        while days(y, 1, 1) > dd {
            y -= 1;
        }
        let mut mo = 1;
        let mut rest = dd - days(y, 1, 1);
        while rest >= month(y, mo) {
            rest -= month(y, mo);
            mo += 1;
        }
        Dt { y, mo, d: rest + 1, h: sec / 3600, mi: sec / 60 % 60, s: sec % 60, off }
    }
    pub fn weekday(&self) -> i64 {
        (days(self.y, self.mo, self.d) + 4).rem_euclid(7)
    }
    pub fn zone(&self) -> String {
        format!("{}{:02}{:02}", if self.off < 0 { "-" } else { "+" }, self.off.abs() / 60, self.off.abs() % 60)
    }
    pub fn part(&self, p: &str) -> String {
        let z = self.zone();
        match p {
            "year" => format!("{:04}", self.y),
            "month" => format!("{:02}", self.mo),
            "day" => format!("{:02}", self.d),
            "date" => format!("{:04}-{:02}-{:02}", self.y, self.mo, self.d),
            "julian" => (days(self.y, self.mo, self.d) + 40587).to_string(),
            "hour" => format!("{:02}", self.h),
            "minute" => format!("{:02}", self.mi),
            "second" => format!("{:02}", self.s),
            "time" => format!("{:02}:{:02}:{:02}", self.h, self.mi, self.s),
            "iso8601" => format!("{}T{}{}", self.part("date"), self.part("time"), if self.off == 0 { "Z".into() } else { format!("{}:{}", &z[..3], &z[3..]) }),
            "std11" => format!("{}, {} {} {:04} {} {z}", DAYS[self.weekday() as usize], self.d, MONTHS[self.mo as usize - 1], self.y, self.part("time")),
            "zone" => z,
            "weekday" => self.weekday().to_string(),
            _ => unreachable!(),
        }
    }
}
#[allow(dead_code)]
pub const PARTS: &[&str] = &["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];
pub fn gen(r: &mut crate::rng::Rng) -> Dt {
    let y = if r.chance(1, 4) { *r.pick(&[1900, 1999, 2000, 2100, 2400, 1969, 1970, 2024]) } else { 1901 + r.below(1000) as i64 };
    let mo = 1 + r.below(12) as i64;
    let last = month(y, mo);
    let d = if r.chance(1, 3) { *r.pick(&[1, last]) } else { 1 + r.below(last as usize) as i64 };
    let h = if r.chance(1, 3) { *r.pick(&[0, 23]) } else { r.below(24) as i64 };
    Dt { y, mo, d, h, mi: r.below(60) as i64, s: r.below(60) as i64, off: gen_off(r) }
}
pub fn gen_off(r: &mut crate::rng::Rng) -> i64 {
    *r.pick(&[0, 0, 60, 120, -60, -300, -720, 840, 330, -210, 30, -30, 765])
}
